From 7fab7a27d189d9fd701547cc391926eef7495ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:42 +0000
Subject: [PATCH 01/77] fix: write the byte order constant as stored, not
 swapped

A big-endian file with an explicit byte order constant was marked as
little-endian and could not be read back.
---
 src/OSEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f17082a..156d00b 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -271,7 +271,8 @@ void OSEGY::Impl::write_bin_header()
     write_IEEE_double(&ptr, common.binary_header.ext_samp_int_orig);
     write_i32(&ptr, common.binary_header.ext_samp_per_tr_orig);
     write_i32(&ptr, common.binary_header.ext_ens_fold);
-    write_i32(&ptr, common.binary_header.endianness);
+    // the constant already holds the byte order of the file
+    write<int32_t>(&ptr, common.binary_header.endianness);
     ptr += 200;
     write_u8(&ptr, common.binary_header.SEGY_rev_major_ver);
     write_u8(&ptr, common.binary_header.SEGY_rev_minor_ver);
-- 
2.43.0


From 8c5ef7e303ebdc5bd7a2686355c4d51571ee82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:20 +0000
Subject: [PATCH 02/77] fix: copying an exception dereferenced a null pointer

---
 src/Exception.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Exception.cpp b/src/Exception.cpp
index 69d4fcb..b185bb7 100644
--- a/src/Exception.cpp
+++ b/src/Exception.cpp
@@ -42,8 +42,9 @@ char const* Exception::what() const noexcept
     return pimpl->d_message.c_str();
 }
 Exception::Exception(Exception const& e)
+    : std::exception { e }
+    , pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl->d_message = e.pimpl->d_message;
 }
 Exception::Exception(Exception&& e)
 {
-- 
2.43.0


From 41bd8b4c64ed2eea1c8c52efc613be64f21152ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 03/77] fix: check the bounds of every entry of a trace header
 map

The entry with the lowest offset was not checked, and offsets close to the
maximum of the type wrapped around.
---
 src/CommonSEGY.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index bc8d6c4..b8daae6 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -81,6 +81,10 @@ void check_tr_hdr_map(CommonSEGY* com)
 									"impossible, unexpected type in "
 									"TrHdrValueType");
 			}
+			if (i.first > CommonSEGY::TR_HEADER_SIZE ||
+				i.first + size > CommonSEGY::TR_HEADER_SIZE)
+				throw Exception(__FILE__, __LINE__,
+					string("trace header has only 240 bytes"));
 			if (first) {
                 prev = i.first;
 				prev_size = size;
@@ -91,9 +95,6 @@ void check_tr_hdr_map(CommonSEGY* com)
 									string("overlapping type/offset in "
                                     "trace headers map: ") +
 								   	to_string(i.first));
-                if (i.first + size > 240)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header has only 240 bytes"));
                 prev = i.first;
 				prev_size = size;
             }
-- 
2.43.0


From 807400a9a9a8a5621a7445835b373849ab5dfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:30 +0000
Subject: [PATCH 04/77] fix: trailer stanzas precede the end of the file

The reader sought beyond the end, so no file with counted trailer stanzas
could be opened.
---
 src/ISEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c30c355..e120d3a 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -406,7 +406,8 @@ void ISEGY::Impl::read_trailer_stanzas()
         }
     } else {
         // go to first trailer stanza
-        common.file.seekg(common.binary_header.num_of_trailer_stanza *
+        common.file.seekg(-static_cast<streamoff>(
+							  common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
-- 
2.43.0


From bee267d26ef0cab1eb54c3f4efb4331d76b290c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 05/77] fix: count trace headers when skipping traces to the
 trailer stanzas

---
 src/ISEGY.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index e120d3a..06f5597 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -353,8 +353,14 @@ void ISEGY::Impl::read_trailer_stanzas()
 						   	"unable to determine end of trace data"));
         if (common.binary_header.fixed_tr_length) {
             // skip all traces
-            common.file.seekg(common.bytes_per_sample * common.samp_per_tr *
-							  common.binary_header.num_of_tr_in_file,
+            streamoff hdrs_size = CommonSEGY::TR_HEADER_SIZE *
+				(1 + static_cast<streamoff>(
+						common.binary_header.max_num_add_tr_headers));
+            streamoff samps_size = static_cast<streamoff>(
+				common.bytes_per_sample) * common.samp_per_tr;
+            common.file.seekg((hdrs_size + samps_size) *
+							  static_cast<streamoff>(
+								  common.binary_header.num_of_tr_in_file),
 							  ios_base::cur);
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
-- 
2.43.0


From 0d61ea9c2e31a59eaa5002014b40ca7a87dd838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:11 +0000
Subject: [PATCH 06/77] fix: sorted reader of a file without traces
 dereferenced the end iterator

---
 src/ISEGYSorted1D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index eca66b6..1176829 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -34,9 +34,10 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     }
     map_cur = trc_map.begin();
     map_end = trc_map.end();
+    if (map_cur == map_end)
+        return;
     vec_cur = map_cur->second.begin();
     vec_end = map_cur->second.end();
-    Trace::Header::Value key = map_cur->first;
 }
 
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
-- 
2.43.0


From 04acf4a3c782c9598ebde9bb0a675e7d61401a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:15 +0000
Subject: [PATCH 07/77] fix: do not depend on operand order when reading 24-bit
 integers

The operands of | are unsequenced, and both advance the same cursor.
---
 src/ISEGY.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 06f5597..8b686ba 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -203,10 +203,13 @@ void ISEGY::Impl::assign_raw_readers()
     case 0x01020304:
         read_u16 = [](char const** buf) { return read<uint16_t>(buf); };
         read_i16 = [](char const** buf) { return read<int16_t>(buf); };
-        read_u24 = [](char const** buf) { return read<uint16_t>(buf) |
-		   	read<uint8_t>(buf) << 16; };
+        read_u24 = [](char const** buf) {
+            uint32_t low = read<uint16_t>(buf);
+            return low | read<uint8_t>(buf) << 16;
+        };
         read_i24 = [](char const** buf) {
-            uint32_t result = read<uint16_t>(buf) | read<uint8_t>(buf) << 16;
+            uint32_t low = read<uint16_t>(buf);
+            uint32_t result = low | read<uint8_t>(buf) << 16;
             return result & 0x800000 ? result | 0xff000000 : result;
         };
         read_u32 = [](char const** buf) { return read<uint32_t>(buf); };
@@ -218,11 +221,13 @@ void ISEGY::Impl::assign_raw_readers()
     case 0x04030201:
         read_u16 = [](char const** buf) { return swap(read<uint16_t>(buf)); };
         read_i16 = [](char const** buf) { return swap(read<int16_t>(buf)); };
-        read_u24 = [](char const** buf) { return swap(read<uint16_t>(buf)) << 8
-		   	| read<uint8_t>(buf); };
+        read_u24 = [](char const** buf) {
+            uint32_t high = swap(read<uint16_t>(buf));
+            return high << 8 | read<uint8_t>(buf);
+        };
         read_i24 = [](char const** buf) {
-            uint32_t result = swap(read<uint16_t>(buf)) << 8 |
-			   	read<uint8_t>(buf);
+            uint32_t high = swap(read<uint16_t>(buf));
+            uint32_t result = high << 8 | read<uint8_t>(buf);
             return result & 0x800000 ? result | 0xff000000 : result;
         };
         read_u32 = [](char const** buf) { return swap(read<uint32_t>(buf)); };
-- 
2.43.0


From a783815b2943446de03e9e4ca14824fd5e0deb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:18 +0000
Subject: [PATCH 08/77] fix: default text header of revision 0 was corrupted

string(' ', n) makes 32 characters of value n, so the revision mark was
replaced by control characters and the following text was shifted.
---
 src/OSEGYRev0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 76739c0..708419c 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -38,7 +38,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         auto pos = txt_hdr.find(to_replace);
         // there are no revision field in text header in revision 0
         txt_hdr.replace(pos, to_replace.size(),
-					   	string(' ', to_replace.size()));
+					   	string(to_replace.size(), ' '));
         CommonSEGY::ascii_to_ebcdic(txt_hdr);
     } else if (txt_hdr.size() != CommonSEGY::TEXT_HEADER_SIZE) {
         throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 403dc383b7011c5ea6844b4adc959bfbccd16d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:21 +0000
Subject: [PATCH 09/77] fix: write every additional trace header

The last of the declared additional headers was never written.
---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 156d00b..488d4b4 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -355,7 +355,7 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i < common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From 4136024ec1210d30a31be4b56133f23dfce02de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:50 +0000
Subject: [PATCH 10/77] fix: write trace header values whatever number type
 they hold

Values of ibm, ieee_single and ieee_double headers are read as double, but
only integers could be written: std::bad_variant_access was thrown.
---
 src/OSEGY.cpp | 69 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 488d4b4..8796161 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -12,6 +12,7 @@ using std::abs;
 using std::fstream;
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -287,6 +288,22 @@ void OSEGY::Impl::write_bin_header()
     common.file.write(buf, CommonSEGY::BIN_HEADER_SIZE);
 }
 
+static int64_t to_int(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return holds_alternative<double>(*v) ? static_cast<int64_t>(get<double>(*v))
+                                         : get<int64_t>(*v);
+}
+
+static double to_double(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return holds_alternative<double>(*v) ? get<double>(*v)
+                                         : static_cast<double>(get<int64_t>(*v));
+}
+
 void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 {
     std::memset(common.hdr_buf, 0, CommonSEGY::TR_HEADER_SIZE);
@@ -296,55 +313,55 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
 				tmp = hdr.get(p.second.first);
-				write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i8(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint8_t:
 				tmp = hdr.get(p.second.first);
-				write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u8(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int16_t:
 				tmp = hdr.get(p.second.first);
-				write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i16(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint16_t:
 				tmp = hdr.get(p.second.first);
-				write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u16(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int24_t:
 				tmp = hdr.get(p.second.first);
-				write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i24(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint24_t:
 				tmp = hdr.get(p.second.first);
-				write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u24(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int32_t:
 				tmp = hdr.get(p.second.first);
-				write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i32(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint32_t:
 				tmp = hdr.get(p.second.first);
-				write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u32(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int64_t:
 				tmp = hdr.get(p.second.first);
-				write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i64(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint64_t:
 				tmp = hdr.get(p.second.first);
-				write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u64(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::ibm:
 				tmp = hdr.get(p.second.first);
-				write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_ibm_float(&pos, to_double(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_single:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_float(&pos, to_double(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_double:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_double(&pos, to_double(tmp));
 				break;
 		}
 	}
@@ -365,55 +382,55 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				switch (p.second.second) {
 					case Trace::Header::ValueType::int8_t:
 						tmp = hdr.get(p.second.first);
-						write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i8(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint8_t:
 						tmp = hdr.get(p.second.first);
-						write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u8(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int16_t:
 						tmp = hdr.get(p.second.first);
-						write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i16(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint16_t:
 						tmp = hdr.get(p.second.first);
-						write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u16(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int24_t:
 						tmp = hdr.get(p.second.first);
-						write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i24(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint24_t:
 						tmp = hdr.get(p.second.first);
-						write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u24(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int32_t:
 						tmp = hdr.get(p.second.first);
-						write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i32(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint32_t:
 						tmp = hdr.get(p.second.first);
-						write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u32(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int64_t:
 						tmp = hdr.get(p.second.first);
-						write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i64(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint64_t:
 						tmp = hdr.get(p.second.first);
-						write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u64(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::ibm:
 						tmp = hdr.get(p.second.first);
-						write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_ibm_float(&pos, to_double(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_single:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_float(&pos, to_double(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_double:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_double(&pos, to_double(tmp));
 						break;
 				}
 			}
-- 
2.43.0


From 45ad4c427d6755aa45289cd3d156d230bd13dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:55 +0000
Subject: [PATCH 11/77] fix: signed writers take signed values

Negative samples were converted from double to an unsigned type, which is
undefined.
---
 src/OSEGY.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 8796161..0e263ba 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -44,15 +44,15 @@ public:
 
 private:
     function<void(char**, uint8_t)> write_u8;
-    function<void(char**, uint8_t)> write_i8;
+    function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
-    function<void(char**, uint16_t)> write_i16;
+    function<void(char**, int16_t)> write_i16;
     function<void(char**, uint32_t)> write_u24;
-    function<void(char**, uint32_t)> write_i24;
+    function<void(char**, int32_t)> write_i24;
     function<void(char**, uint32_t)> write_u32;
-    function<void(char**, uint32_t)> write_i32;
+    function<void(char**, int32_t)> write_i32;
     function<void(char**, uint64_t)> write_u64;
-    function<void(char**, uint64_t)> write_i64;
+    function<void(char**, int64_t)> write_i64;
     function<void(char**, double)> write_sample;
     function<void(char**, double)> write_ibm_float;
     function<void(char**, float)> write_IEEE_float;
-- 
2.43.0


From 670e795aee0655ceffc7fc137bf6b5df97e71850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:39 +0000
Subject: [PATCH 12/77] fix: exact exponents of ibm floating point values

log() is not exact: some powers of 16 were written as zero. Values too small
to be normalised were written with a huge exponent, and log(0) is no number.
---
 src/OSEGY.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 0e263ba..6df9a3e 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -148,10 +148,14 @@ void OSEGY::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
+        int exp2 = 0;
+        frexp(abs_val, &exp2);
+        // least power of 16 that exceeds abs_val, or the least there is
+        int exp16 = (exp2 + 4 * 512 + 3) / 4 - 512;
+        if (abs_val == 0 || exp16 < -64)
+            exp16 = -64;
+        uint32_t exp = static_cast<uint32_t>(exp16 + 64) & 0x7f;
+        uint32_t fraction = ldexp(abs_val, 24 - 4 * exp16);
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
-- 
2.43.0


From 56bd2a1b089a2160b632c9ec97980825934c3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:44 +0000
Subject: [PATCH 13/77] fix: throw if a trace header lacks SAMP_NUM or SAMP_INT

An empty optional was dereferenced; the comments promise an exception.
---
 src/OSEGY.cpp     | 2 +-
 src/OSEGYRev0.cpp | 4 ++--
 src/OSEGYRev1.cpp | 4 ++--
 src/OSEGYRev2.cpp | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 6df9a3e..6b2012b 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -463,7 +463,7 @@ void OSEGY::Impl::write_trailer_stanzas()
 
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
-    Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
+    Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
     int64_t samp_num = get<int64_t>(v);
     uint64_t bytes_num = samp_num * common.bytes_per_sample;
     if (bytes_num != common.samp_buf.size())
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 708419c..8ee00be 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -68,7 +68,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
-                Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+                Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
                 if (samp_num > INT16_MAX)
                     throw Exception(__FILE__, __LINE__,
@@ -76,7 +76,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 									"revision 0");
                 else
                     sgy.common().binary_header.samp_per_tr = samp_num;
-                v = *tr.header().get("SAMP_INT");
+                v = tr.header().get("SAMP_INT").value();
                 double samp_int;
                 if (holds_alternative<int64_t>(v))
                     samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f80741e..035cb7d 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -80,7 +80,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
-				Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
 				if (samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
@@ -88,7 +88,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 									"for revision 1");
 				else
 					sgy.common().binary_header.samp_per_tr = samp_num;
-				v = *tr.header().get("SAMP_INT");
+				v = tr.header().get("SAMP_INT").value();
 				double samp_int;
 				if (holds_alternative<int64_t>(v))
 					samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 610931f..1402c7b 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -131,7 +131,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
-        Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+        Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
         if (samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
@@ -139,7 +139,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 							"revision 0");
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
-        v = *tr.header().get("SAMP_INT");
+        v = tr.header().get("SAMP_INT").value();
         double samp_int = get<int64_t>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 49e87d71b55cb23e1b4b553baa476b096ec2677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:49 +0000
Subject: [PATCH 14/77] fix: refuse traces with other than the declared number
 of samples

Longer traces overflowed the buffer, shorter ones repeated samples of the
trace before.
---
 src/OSEGY.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 6b2012b..893831c 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -475,6 +475,10 @@ void OSEGY::Impl::write_trace_samples_fix(Trace const& t)
 {
     char* buf = common.samp_buf.data();
     vector<double> const& samples = t.samples();
+    if (samples.size() * common.bytes_per_sample != common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__,
+						"number of samples in trace differs from "
+						"declared number");
     for (auto samp : samples)
         write_sample(&buf, samp);
     common.file.write(common.samp_buf.data(), common.samp_buf.size());
-- 
2.43.0


From e2667e528840ed1b8e2bcf705c1c5b2b281314bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:23 +0000
Subject: [PATCH 15/77] fix: writing with an empty trace header map indexed an
 empty vector

---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 893831c..c7452e8 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -312,7 +312,7 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 {
     std::memset(common.hdr_buf, 0, CommonSEGY::TR_HEADER_SIZE);
     optional<Trace::Header::Value> tmp;
-	for (auto& p : common.tr_hdr_map[0].second) {
+	for (auto& p : common.tr_hdr_map.at(0).second) {
 		char* pos = common.hdr_buf + p.first;
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
-- 
2.43.0


From 50ee3287459100722c89404bc3018bf9de5c9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 16/77] fix: record the number of extended text headers

The binary header was written before the number was set, so a reader took the
extended text headers for traces. When the binary header is completed by the
first trace, the file position has to return behind these headers.
---
 src/OSEGYRev1.cpp | 4 ++++
 src/OSEGYRev2.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 035cb7d..cb76fd7 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,6 +49,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.ext_text_headers_num = txt_hdrs.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
@@ -57,6 +58,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.ext_text_headers_num =
+		sgy.common().binary_header.ext_text_headers_num;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
@@ -104,6 +107,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				sgy.common().samp_buf.resize
 					(samp_num * sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
+				sgy.common().file.seekg(first_trace_pos);
 			}
 			sgy.write_trace_header(tr.header());
 			sgy.write_trace_samples_var(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 1402c7b..7b4cc73 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -56,6 +56,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.ext_text_headers_num =
+        sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
@@ -64,6 +66,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.ext_text_headers_num =
+		sgy.common().binary_header.ext_text_headers_num;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
@@ -148,6 +152,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
             sgy.common().binary_header.samp_int = samp_int;
         sgy.common().samp_buf.resize(samp_num * sgy.common().bytes_per_sample);
 		sgy.write_bin_header();
+		sgy.common().file.seekg(first_trace_pos);
     }
 }
 
-- 
2.43.0


From d763f596927d693787c71ac948dcbbdfe454ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:28 +0000
Subject: [PATCH 17/77] fix: write and record the trailer stanzas that are
 given

They were dropped unless the binary header happened to announce some.
---
 src/OSEGYRev2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 7b4cc73..86bd3e8 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -58,6 +58,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
         sgy.common().binary_header.format_code = 5;
     sgy.common().binary_header.ext_text_headers_num =
         sgy.common().text_headers.size() - 1;
+    sgy.common().binary_header.num_of_trailer_stanza =
+        sgy.common().trailer_stanzas.size();
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
@@ -68,6 +70,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 	zero.format_code = 5;
 	zero.ext_text_headers_num =
 		sgy.common().binary_header.ext_text_headers_num;
+	zero.num_of_trailer_stanza =
+		sgy.common().binary_header.num_of_trailer_stanza;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-- 
2.43.0


From 56ae00ae0a71c9c26522fe1347afd762b5ae1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:31 +0000
Subject: [PATCH 18/77] fix: record the revision that is written

Without a revision a reader takes traces for fixed length ones.
---
 src/OSEGYRev1.cpp | 2 ++
 src/OSEGYRev2.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index cb76fd7..3bfd1ea 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,6 +49,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.SEGY_rev_major_ver = 1;
     sgy.common().binary_header.ext_text_headers_num = txt_hdrs.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
@@ -58,6 +59,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 1;
 	zero.ext_text_headers_num =
 		sgy.common().binary_header.ext_text_headers_num;
     if (memcmp(&sgy.common().binary_header, &zero,
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 86bd3e8..98c6261 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -56,6 +56,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    sgy.common().binary_header.SEGY_rev_major_ver = 2;
     sgy.common().binary_header.ext_text_headers_num =
         sgy.common().text_headers.size() - 1;
     sgy.common().binary_header.num_of_trailer_stanza =
@@ -68,6 +69,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 2;
 	zero.ext_text_headers_num =
 		sgy.common().binary_header.ext_text_headers_num;
 	zero.num_of_trailer_stanza =
-- 
2.43.0


From d46fa5a2b108ce6cb6495f02054be3bf593f383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:33 +0000
Subject: [PATCH 19/77] fix: revision 2 traces may have an extended number of
 samples

and a floating point sample interval, as their header map has it.
---
 src/OSEGYRev2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 98c6261..8a3cb7b 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -7,6 +7,7 @@
 
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -77,8 +78,10 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
+            int32_t ext = sgy.common().binary_header.ext_samp_per_tr;
+            sgy.common().samp_buf.resize(static_cast<size_t>(ext ? ext :
+					static_cast<uint16_t>(
+					sgy.common().binary_header.samp_per_tr)) *
 			   	sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
@@ -150,7 +153,8 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
         v = tr.header().get("SAMP_INT").value();
-        double samp_int = get<int64_t>(v);
+        double samp_int = holds_alternative<int64_t>(v) ?
+			get<int64_t>(v) : get<double>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
-- 
2.43.0


From 3e96bdef7b311952e2f63cbe4ad0c2438c7c847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:55 +0000
Subject: [PATCH 20/77] fix: do not announce file parts that are not written

A binary header taken from another file may have extended text headers or
another offset of the first trace than the file that is written.
---
 src/OSEGYRev0.cpp | 3 +++
 src/OSEGYRev2.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 8ee00be..bfe0ebc 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -48,6 +48,9 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
     sgy.common().text_headers.emplace_back(move(txt_hdr));
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 1;
+    sgy.common().binary_header.ext_text_headers_num = 0;
+    if (sgy.common().binary_header.SEGY_rev_major_ver > 1)
+        sgy.common().binary_header.SEGY_rev_major_ver = 0;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
 	first_trace_pos = sgy.common().file.tellg();
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 8a3cb7b..402158b 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -62,6 +62,10 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
         sgy.common().text_headers.size() - 1;
     sgy.common().binary_header.num_of_trailer_stanza =
         sgy.common().trailer_stanzas.size();
+    if (sgy.common().binary_header.byte_off_of_first_tr)
+        sgy.common().binary_header.byte_off_of_first_tr =
+            CommonSEGY::BIN_HEADER_SIZE + CommonSEGY::TEXT_HEADER_SIZE *
+            sgy.common().text_headers.size();
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
-- 
2.43.0


From 977b5c673a5906cdd2b45cd33c1c715ad9a5e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:40 +0000
Subject: [PATCH 21/77] fix: describe trace headers under the names the default
 map uses

---
 src/CommonSEGY.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index b8daae6..169c7c6 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -399,7 +399,7 @@ map<string, string> CommonSEGY::trace_header_description = {
     { "HIGH_CUT_SLOPE", "High-cut slope (dB/octave)." },
     { "YEAR", "Year data recorded." },
     { "DAY", "Day of year." },
-    { "HOUR", "Year data recorded." },
+    { "HOUR", "Hour of day." },
     { "MINUTE", "Minute of hour." },
     { "SECOND", "Second of minute." },
 	{ "TIME_BASIS_CODE", "Time basis code. 1 = local, 2 = GMT, 4 = UTC, "
@@ -422,8 +422,9 @@ map<string, string> CommonSEGY::trace_header_description = {
     { "SP_NUM_SCALAR", "Scalar to be applied to the SP_NUM." },
 	{ "TR_VAL_UNIT", "Trace value measurement unit. 1 = Pa, 2 = V, 3 = mV, "
 		"4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
-	{ "TRANS_CONST", "Transduction Constant. Transforms trace samples to the "
-		"Transduction Units" },
+	{ "TRANS_CONST_MANT", "Transduction Constant mantissa. Transforms trace "
+		"samples to the Transduction Units" },
+	{ "TRANS_CONST_EXP", "Transduction Constant power of ten exponent." },
 	{ "TRANS_UNITS", "Transduction Units. 1 = Pa, 2 = V, 3 = mV, 4 = A, "
 		"5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "DEVICE_ID", "Device/Trace Identifier. The unit number or id of the "
@@ -438,13 +439,14 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"source orientation. Cross-line." },
 	{ "SOU_I_DIR", "Source Energy Direction with respect to "
 		"source orientation. In-line." },
-	{ "SOURCE_MEASUREMENT", "Source Measurement. Describes the "
+	{ "SOURCE_MEASUREMENT_MANT", "Source Measurement mantissa. Describes the "
 		"source effort used to generate the trace." },
+	{ "SOURCE_MEASUREMENT_EXP", "Source Measurement power of ten exponent." },
 	{ "SOU_MEAS_UNIT", "The unit used for the Source Measurement. "
 		"1 = J, 2 = kW, 3 = Pa, 4 = Bar, 5 = N, 6 = kg." },
 	{ "R_DEPTH", "Receiver group depth below the surface locacation of "
 		"receiver group." },
-    { "NANO_SECOND", "Nanoseconds to add to Second of minute." },
+    { "NANOSECOND", "Nanoseconds to add to Second of minute." },
 	{ "CABLE_NUM", "Cable number for multi-cable acquisition or "
 		"Recording Device/Sensor ID number." },
 	{ "ADD_TRC_HDR_NUM", "Number of additional trace header extension "
-- 
2.43.0


From b535f1b0f9e20928c2edfedcb261e8ead42e34a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:04 +0000
Subject: [PATCH 22/77] fix: do not depend on operand order when reading 24-bit
 integers of SEGD

---
 src/ISEGD.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index faf14b3..4817c39 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -216,10 +216,13 @@ void ISEGD::Impl::assign_raw_readers()
     if (endian::native == endian::big) {
         read_u16 = [](char const** buf) { return read<uint16_t>(buf); };
         read_i16 = [](char const** buf) { return read<int16_t>(buf); };
-        read_u24 = [](char const** buf) { return read<uint16_t>(buf) |
-		   	read<uint8_t>(buf) << 16; };
+        read_u24 = [](char const** buf) {
+            uint32_t high = read<uint16_t>(buf);
+            return high << 8 | read<uint8_t>(buf);
+        };
         read_i24 = [](char const** buf) {
-            uint32_t result = read<uint16_t>(buf) | read<uint8_t>(buf) << 16;
+            uint32_t result = read<uint16_t>(buf);
+            result = result << 8 | read<uint8_t>(buf);
             return result & 0x800000 ? result | 0xff000000 : result;
         };
         read_u32 = [](char const** buf) { return read<uint32_t>(buf); };
@@ -229,11 +232,13 @@ void ISEGD::Impl::assign_raw_readers()
     } else {
         read_u16 = [](char const** buf) { return swap(read<uint16_t>(buf)); };
         read_i16 = [](char const** buf) { return swap(read<int16_t>(buf)); };
-        read_u24 = [](char const** buf) { return swap(read<uint16_t>(buf)) << 8
-        | read<uint8_t>(buf); };
+        read_u24 = [](char const** buf) {
+            uint32_t high = swap(read<uint16_t>(buf));
+            return high << 8 | read<uint8_t>(buf);
+        };
         read_i24 = [](char const** buf) {
-            uint32_t result = swap(read<uint16_t>(buf)) << 8 |
-			   	read<uint8_t>(buf);
+            uint32_t result = swap(read<uint16_t>(buf));
+            result = result << 8 | read<uint8_t>(buf);
             return result & 0x800000 ? result | 0xff000000 : result;
         };
         read_u32 = [](char const** buf) { return swap(read<uint32_t>(buf)); };
-- 
2.43.0


From d757f85e88d5b2f798668f6305f5e3a6a258ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:11 +0000
Subject: [PATCH 23/77] fix: little-endian 24-bit samples of SEGD are signed,
 low byte first

---
 src/ISEGD.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 4817c39..fb56063 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1018,9 +1018,10 @@ void ISEGD::Impl::assign_sample_reading()
 		   	{ return swap(read_i24(buf)); };
         else
             read_sample = [](char const** buf) {
-                uint32_t result = read<uint16_t>(buf) << 8 |
-				   	read<uint8_t>(buf);
-                return result & 0x800000 ? result | 0xff000000 : result;
+                uint32_t result = read<uint16_t>(buf);
+                result |= static_cast<uint32_t>(read<uint8_t>(buf)) << 16;
+                return static_cast<int32_t>(result & 0x800000 ?
+                    result | 0xff000000 : result);
             };
         break;
     case 9038:
-- 
2.43.0


From a635d15c0e9257b00971141e1474b8c285946a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:56 +0000
Subject: [PATCH 24/77] fix: every 8022, 8024, 8042, 8044 and 8048 sample was
 decoded from the first one

The pointer to the position in the buffer was incremented instead of the
position, the exponent was not shifted and that of 8048 is biased.
---
 src/ISEGD.cpp | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index fb56063..58793e3 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -944,19 +944,19 @@ void ISEGD::Impl::assign_sample_reading()
     case 8022:
         common.bits_per_sample = 8;
         read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            return sign * (**buf++ & 0xf) * pow(2, exp - 4);
+            uint8_t val = read<uint8_t>(buf);
+            int sign = val & 0b10000000 ? -1 : 1;
+            int exp = (val & 0b01110000) >> 4;
+            return sign * (val & 0xf) * pow(2, exp - 4);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            uint16_t frac = **buf++ & 0xf;
-            frac = (frac << 8) & **buf++;
-            return sign * frac * pow(2, exp - 12);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = (val & 0x7000) >> 12;
+            return sign * (val & 0x0fff) * pow(2, exp - 12);
         };
         break;
     case 8036:
@@ -970,28 +970,24 @@ void ISEGD::Impl::assign_sample_reading()
     case 8042:
         common.bits_per_sample = 8;
         read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            return sign * (**buf++ & 0x1f) / pow(2, 5) * pow(16, exp);
+            uint8_t val = read<uint8_t>(buf);
+            int sign = val & 0b10000000 ? -1 : 1;
+            int exp = (val & 0b01100000) >> 5;
+            return sign * (val & 0x1f) / pow(2, 5) * pow(16, exp);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            uint16_t frac = **buf++ & 0x1f;
-            frac = (frac << 8) & **buf++;
-            return sign * frac / pow(2, 13) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = (val & 0x6000) >> 13;
+            return sign * (val & 0x1fff) / pow(2, 13) * pow(16, exp);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
-        read_sample = [this](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf++ & 0b01111111;
-            return sign * read_u24(buf) / pow(2, 24) * pow(16, exp);
-        };
+        read_sample = dbl_from_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
-- 
2.43.0


From 64c510d981c4552fd4c2a7b44524790c68a3f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 25/77] fix: decode 20-bit samples of SEGD from their own trace

The state of decoding was shared by all readers, not reset between traces and
the exponents were all taken from the first byte.
---
 src/ISEGD.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 58793e3..c5a5242 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -54,6 +54,9 @@ private:
     void file_skip_bytes(streamoff off);
     void check_trc_hdr_ext();
     function<double(char const**)> read_sample;
+    // group of 20-bit samples which share their exponents' bytes
+    double group[4];
+    int group_pos;
     function<uint8_t(char const**)> read_u8;
     function<int8_t(char const**)> read_i8;
     function<uint16_t(char const**)> read_u16;
@@ -925,20 +928,19 @@ void ISEGD::Impl::assign_sample_reading()
     case 8015:
         common.bits_per_sample = 20;
         read_sample = [this](char const** buf) {
-            static double result[4];
-            static int counter = 0;
-            if (counter == 4)
-                counter = 0;
-            if (!counter) {
+            if (!group_pos) {
                 int exp[4];
                 for (int i = 0; i < 4; i += 2) {
-                    exp[i] = **buf >> 4;
-                    exp[i + 1] = **buf++ & 0xf;
+                    uint8_t val = read<uint8_t>(buf);
+                    exp[i] = val >> 4;
+                    exp[i + 1] = val & 0xf;
                 }
                 for (int i = 0; i < 4; ++i)
-                    result[i] = read_i16(buf) * pow(2, exp[i] - 15);
+                    group[i] = read_i16(buf) * pow(2, exp[i] - 15);
             }
-            return result[counter++];
+            double result = group[group_pos];
+            group_pos = (group_pos + 1) % 4;
+            return result;
         };
         break;
     case 8022:
@@ -1366,8 +1368,12 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    if (common.trc_samp_buf.size() != (samp_num * common.bits_per_sample) / 8)
-        common.trc_samp_buf.resize((samp_num * common.bits_per_sample) / 8);
+    uint64_t samp_in_buf = samp_num;
+    // samples of 20 bits are recorded in groups of 4
+    if (common.bits_per_sample == 20)
+        samp_in_buf = (samp_in_buf + 3) / 4 * 4;
+    group_pos = 0;
+    common.trc_samp_buf.resize(samp_in_buf * common.bits_per_sample / 8);
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
-- 
2.43.0


From 355ea5b465fc01e2f4813ca645c2b26b4e38935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:32 +0000
Subject: [PATCH 26/77] fix: read unsigned 64-bit trace header values at their
 offset

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c5a5242..412f8f9 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1305,7 +1305,7 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
                     hdr[p.second.first] = read_i64(&pos);
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&buf));
+                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&pos));
                     break;
                 case Trace::Header::ValueType::ibm:
                     hdr[p.second.first] = dbl_from_ibm_float(&pos);
-- 
2.43.0


From e37819d4133f058e3082ddefd7df280bf2c711ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:40 +0000
Subject: [PATCH 27/77] fix: a trace with more extensions than maps read past
 the maps

---
 src/ISEGD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 412f8f9..2cfdac4 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1274,6 +1274,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
         char const* buf = common.trc_ext_hdr_buf;
         if (common.trace_header_extension.size()) {
+            // skip extensions without a map
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                continue;
             for (auto& p : common.trace_header_extension[i]) {
                 char const* pos = common.trc_ext_hdr_buf + p.first;
                 switch (p.second.second) {
-- 
2.43.0


From 5b646675ed8b642ff3db5d9e60a3ea2f35ef5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:12 +0000
Subject: [PATCH 28/77] fix: check the bounds of SEGD trace header extension
 maps

---
 src/CommonSEGD.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 59202a7..386189f 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -18,6 +18,27 @@ using std::unique_ptr;
 using std::vector;
 
 namespace sedaman {
+static uint32_t value_size(Trace::Header::ValueType type)
+{
+    switch (type) {
+    case Trace::Header::ValueType::int8_t:
+    case Trace::Header::ValueType::uint8_t:
+        return 1;
+    case Trace::Header::ValueType::int16_t:
+    case Trace::Header::ValueType::uint16_t:
+        return 2;
+    case Trace::Header::ValueType::int24_t:
+    case Trace::Header::ValueType::uint24_t:
+        return 3;
+    case Trace::Header::ValueType::int64_t:
+    case Trace::Header::ValueType::uint64_t:
+    case Trace::Header::ValueType::ieee_double:
+        return 8;
+    default:
+        return 4;
+    }
+}
+
 CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     GeneralHeader gh, GeneralHeader2 gh2, GeneralHeader3 gh3,
     vector<shared_ptr<AdditionalGeneralHeader>> add_ghs,
@@ -37,6 +58,12 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     , channel_sets { ch_sets }
     , trace_header_extension { trc_hdr_ext }
 {
+    for (auto& hdr_map : trace_header_extension)
+        for (auto& item : hdr_map)
+            if (item.first > TRACE_HEADER_EXT_SIZE -
+                value_size(item.second.second))
+                throw Exception(__FILE__, __LINE__,
+                    "trace header extension map exceeds the extension");
     fstream fl;
     fl.exceptions(fstream::failbit | fstream::badbit);
     fl.open(file_name, mode);
-- 
2.43.0


From 34191fead15f9f75fb96a04698343b4fd6cba801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:21 +0000
Subject: [PATCH 29/77] fix: extended trace number of revision 3 is the number
 of the channel

TRACE_NUMBER was never set.
---
 src/ISEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 2cfdac4..4959b77 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1347,8 +1347,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             }
             if (common.general_header2.segd_rev_major > 2) {
                 uint32_t ext_tr_num = read_u24(&buf);
-                if (get<int64_t>(hdr["TRACE_NUMBER"]) == 16665)
-                    hdr["TRACE_NUMBER"] = ext_tr_num;
+                // 0xffff instead of four digits
+                if (get<int64_t>(hdr["CHAN"]) == 16665)
+                    hdr["CHAN"] = ext_tr_num;
                 hdr["SAMP_NUM"] = read_u32(&buf);
                 hdr["SENSOR_MOVING"] = read_u8(&buf);
                 ++buf;
-- 
2.43.0


From 44f24987c33c07a6a3b597fd2cedacccd4aeed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:28 +0000
Subject: [PATCH 30/77] fix: extended number of channel sets is marked by 0xff,
 two digits

The writer marks numbers above 99 so, and writes the extended number of blocks.
---
 src/ISEGD.cpp       | 2 +-
 src/OSEGD.cpp       | 5 ++++-
 src/OSEGDRev2_1.cpp | 6 +++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 4959b77..b5222f8 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -172,7 +172,7 @@ void ISEGD::Impl::read_headers_before_traces()
     assign_sample_reading();
     // read header for each scan type
     uint16_t ch_sets_per_scan_type_num =
-	   	common.general_header.channel_sets_per_scan_type ==	1665 ?
+	   	common.general_header.channel_sets_per_scan_type ==	165 ?
 	   	common.general_header2.ext_ch_sets_per_scan_type :
 	   	common.general_header.channel_sets_per_scan_type;
     if (!common.general_header.add_gen_hdr_blocks ||
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b581e5d..4fbefa6 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -217,7 +217,10 @@ void OSEGD::Impl::write_general_header1()
     common.general_header.scan_types_per_record > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.scan_types_per_record, false, 2);
-    to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false, 2);
+    common.general_header.channel_sets_per_scan_type > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false,
+			   2);
     to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3e29252..3c1acbd 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -34,7 +34,7 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
         uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type == 1665 ?
+		   	sgd.common().general_header.channel_sets_per_scan_type > 99 ?
 		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
 		   	sgd.common().general_header.channel_sets_per_scan_type;
         if (sets.size() != ch_sets_per_scan_type_num)
@@ -52,11 +52,11 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
         }
     }
     uint32_t extended_blocks =
-	   	sgd.common().general_header.extended_hdr_blocks == 165 ?
+	   	sgd.common().general_header.extended_hdr_blocks > 99 ?
 	   	sgd.common().general_header2.extended_hdr_blocks :
 	   	sgd.common().general_header.extended_hdr_blocks;
     uint32_t external_blocks =
-	   	sgd.common().general_header.external_hdr_blocks == 165 ?
+	   	sgd.common().general_header.external_hdr_blocks > 99 ?
 	   	sgd.common().general_header2.external_hdr_blocks :
 	   	sgd.common().general_header.external_hdr_blocks;
     for (uint32_t i = 0; i < extended_blocks; ++i)
-- 
2.43.0


From c5e8747b4331e5b3c97095fe8142bb7d8d3f2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:36 +0000
Subject: [PATCH 31/77] fix: layout of the second general header of SEGD
 revision 3

Extended record length was not read, dominant sampling interval has 3 bytes.
---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index b5222f8..28a7bd5 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -394,9 +394,10 @@ void ISEGD::Impl::read_gen_hdr2_and_3(char const* buf)
     gh2.extended_skew_blocks = read_u16(&buf);
     buf += 2;
     gh2.gen_trailer_num_of_blocks = read_u32(&buf);
+    gh2.ext_record_len = read_u32(&buf);
     gh2.record_set_number = read_u16(&buf);
     gh2.ext_num_add_blks_in_gen_hdr = read_u16(&buf);
-    gh2.dominant_sampling_int = read_u16(&buf);
+    gh2.dominant_sampling_int = read_u24(&buf);
     gh2.external_hdr_blocks = read_u24(&buf);
     gh2.gen_hdr_block_num = *++buf;
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From 59988804dee81ff50477c2e3fd80e61e2a385aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:44 +0000
Subject: [PATCH 32/77] fix: source offsets and size of SEGD revision 3 have 2
 bytes

---
 src/ISEGD.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 28a7bd5..0ceae95 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -590,10 +590,10 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
     ghV.reshoot_idx = read_u8(&buf);
     ghV.group_idx = read_u8(&buf);
     ghV.depth_idx = read_u8(&buf);
-    ghV.offset_crossline = read_u8(&buf);
-    ghV.offset_inline = read_u8(&buf);
-    ghV.size = read_u8(&buf);
-    ghV.offset_depth = read_u8(&buf);
+    ghV.offset_crossline = read_u16(&buf);
+    ghV.offset_inline = read_u16(&buf);
+    ghV.size = read_u16(&buf);
+    ghV.offset_depth = read_u16(&buf);
     ghV.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderVib>(move(ghV));
 }
@@ -616,10 +616,10 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderExp>(move(ghE));
 }
@@ -641,10 +641,10 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderAir>(move(ghA));
 }
@@ -666,10 +666,10 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderWat>(move(ghA));
 }
@@ -691,10 +691,10 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderEle>(move(ghE));
 }
@@ -715,10 +715,10 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
     ghO.reshoot_idx = read_u8(&buf);
     ghO.group_idx = read_u8(&buf);
     ghO.depth_idx = read_u8(&buf);
-    ghO.offset_crossline = read_u8(&buf);
-    ghO.offset_inline = read_u8(&buf);
-    ghO.size = read_u8(&buf);
-    ghO.offset_depth = read_u8(&buf);
+    ghO.offset_crossline = read_u16(&buf);
+    ghO.offset_inline = read_u16(&buf);
+    ghO.size = read_u16(&buf);
+    ghO.offset_depth = read_u16(&buf);
     ghO.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderOth>(move(ghO));
 }
-- 
2.43.0


From d0a99e5613b330cc1cce0f925bc7e98c7332fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:53 +0000
Subject: [PATCH 33/77] fix: source line and point numbers of SEGD revision 3
 are signed

As they are in revision 2.
---
 src/ISEGD.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 0ceae95..50007b6 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -577,9 +577,9 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderVib ghV;
     ghV.expanded_file_number = read_u24(&buf);
-    ghV.sou_line_num = read_u24(&buf);
+    ghV.sou_line_num = read_i24(&buf);
     ghV.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghV.sou_point_num = read_u24(&buf);
+    ghV.sou_point_num = read_i24(&buf);
     ghV.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghV.sou_point_index = read_u8(&buf);
     ghV.phase_control = read_u8(&buf);
@@ -603,9 +603,9 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderExp ghE;
     ghE.expanded_file_number = read_u24(&buf);
-    ghE.sou_line_num = read_u24(&buf);
+    ghE.sou_line_num = read_i24(&buf);
     ghE.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghE.sou_point_num = read_u24(&buf);
+    ghE.sou_point_num = read_i24(&buf);
     ghE.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghE.sou_point_index = read_u8(&buf);
     ghE.depth = read_u16(&buf);
@@ -629,9 +629,9 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderAir ghA;
     ghA.expanded_file_number = read_u24(&buf);
-    ghA.sou_line_num = read_u24(&buf);
+    ghA.sou_line_num = read_i24(&buf);
     ghA.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghA.sou_point_num = read_u24(&buf);
+    ghA.sou_point_num = read_i24(&buf);
     ghA.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghA.sou_point_index = read_u8(&buf);
     ghA.depth = read_u16(&buf);
@@ -654,9 +654,9 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderWat ghA;
     ghA.expanded_file_number = read_u24(&buf);
-    ghA.sou_line_num = read_u24(&buf);
+    ghA.sou_line_num = read_i24(&buf);
     ghA.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghA.sou_point_num = read_u24(&buf);
+    ghA.sou_point_num = read_i24(&buf);
     ghA.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghA.sou_point_index = read_u8(&buf);
     ghA.depth = read_u16(&buf);
@@ -679,9 +679,9 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderEle ghE;
     ghE.expanded_file_number = read_u24(&buf);
-    ghE.sou_line_num = read_u24(&buf);
+    ghE.sou_line_num = read_i24(&buf);
     ghE.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghE.sou_point_num = read_u24(&buf);
+    ghE.sou_point_num = read_i24(&buf);
     ghE.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghE.sou_point_index = read_u8(&buf);
     ghE.source_type = read_u8(&buf);
@@ -704,9 +704,9 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderOth ghO;
     ghO.expanded_file_number = read_u24(&buf);
-    ghO.sou_line_num = read_u24(&buf);
+    ghO.sou_line_num = read_i24(&buf);
     ghO.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghO.sou_point_num = read_u24(&buf);
+    ghO.sou_point_num = read_i24(&buf);
     ghO.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghO.sou_point_index = read_u8(&buf);
     buf += 4;
-- 
2.43.0


From e1ba1d1ea599465dbbcc8c435be9b53ea9a553fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:02 +0000
Subject: [PATCH 34/77] fix: sensor serial number has 18 bytes

It was read past the end of the header block.
---
 include/CommonSEGD.hpp | 2 +-
 src/pybind/pybind.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d0c6b0b..439618c 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1164,7 +1164,7 @@ public:
         uint64_t instrument_test_time;
         uint32_t sensor_sensitivity;
         uint8_t instr_test_result;
-        char serial_number[28];
+        char serial_number[18];
         uint8_t gen_hdr_block_type;
         ///
         /// \brief Constants to use with names.
diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 87a3708..363e416 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -935,10 +935,10 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderSen_py.def_property(
       "serial_number",
       [](CommonSEGD::GeneralHeaderSen &h) {
-        return string(h.serial_number, 28);
+        return string(h.serial_number, 18);
       },
       [](CommonSEGD::GeneralHeaderSen &h, string &s) {
-        strncpy(h.serial_number, s.c_str(), 28);
+        strncpy(h.serial_number, s.c_str(), 18);
       });
   GeneralHeaderSen_py.def_readwrite(
       "gen_hdr_block_type", &CommonSEGD::GeneralHeaderSen::gen_hdr_block_type);
-- 
2.43.0


From cd46ad6eccd03e7e439f65a0b9ca6b5374d8fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:26 +0000
Subject: [PATCH 35/77] fix: channel set header flag of 8 or more was
 sign-extended

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 50007b6..41fa0b8 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1110,7 +1110,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         second_notch_filter = from_bcd<int>(&buf, false, 4);
         third_notch_filter = from_bcd<int>(&buf, false, 4);
         ext_ch_set_num = read_u16(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         trc_hdr_ext = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
@@ -1128,7 +1128,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
         trc_hdr_ext = read_u8(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         channel_gain = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
-- 
2.43.0


From 161e7cdfb50fb9c3decf5bd90b6e49516187233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:33 +0000
Subject: [PATCH 36/77] fix: descale multiplier of SEGD revision 3 is a
 floating point number

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 41fa0b8..f01b881 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1123,7 +1123,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         channel_set_start_time = read_u32(&buf);
         channel_set_end_time = read_u32(&buf);
         number_of_samples = read_u32(&buf);
-        descale_multiplier = read_u32(&buf);
+        descale_multiplier = dbl_from_IEEE_float(&buf);
         number_of_channels = read_u24(&buf);
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
-- 
2.43.0


From 6d69886b6b7f83b3e3310c31fed6a2447c6b85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:39 +0000
Subject: [PATCH 37/77] fix: filter delay was truncated to 8 bits

---
 src/CommonSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 386189f..b3f3d73 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -298,7 +298,7 @@ optional<uint8_t> CommonSEGD::ChannelSetHeader::physical_unit()
 
 optional<uint32_t> CommonSEGD::ChannelSetHeader::filter_delay()
 {
-   	return segd_rev_more_than_2 ? optional<uint8_t>(p_filter_delay) : nullopt;
+   	return segd_rev_more_than_2 ? optional<uint32_t>(p_filter_delay) : nullopt;
 }
 
 optional<array<char, 27>> CommonSEGD::ChannelSetHeader::description()
-- 
2.43.0


From 3e017fcd16ef74e98050ae98935d9e9e7cf4b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:49 +0000
Subject: [PATCH 38/77] fix: channel sets before revision 3 have no number of
 samples

They were read as revision 3 ones, with a number of samples of zero.
---
 src/ISEGD.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index f01b881..e1ea37b 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1116,6 +1116,14 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         vert_stack = read_u8(&buf);
         streamer_no = read_u8(&buf);
         array_forming = read_u8(&buf);
+        return CommonSEGD::ChannelSetHeader(
+            scan_type_number, channel_set_number, channel_type,
+            channel_set_start_time, channel_set_end_time, descale_multiplier,
+            number_of_channels, subscans_per_ch_set, channel_gain,
+            alias_filter_freq, alias_filter_slope, low_cut_filter_freq,
+            low_cut_filter_slope, first_notch_filter, second_notch_filter,
+            third_notch_filter, ext_ch_set_num, ext_hdr_flag, trc_hdr_ext,
+            vert_stack, streamer_no, array_forming);
     } else {
         scan_type_number = from_bcd<int>(&buf, false, 2);
         channel_set_number = read_u16(&buf);
-- 
2.43.0


From 9286eb9501a4b674b0df6a2dced4819be144d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:23 +0000
Subject: [PATCH 39/77] fix: a trace of an unknown channel set read past the
 channel sets

---
 src/ISEGD.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index e1ea37b..9eaf09b 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1372,9 +1372,14 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
     uint32_t samp_num;
+    size_t scan_type = get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1;
+    size_t ch_set = get<int64_t>(hdr["CH_SET_NUM"]) - 1;
+    if (scan_type >= common.channel_sets.size() ||
+        ch_set >= common.channel_sets[scan_type].size())
+        throw Exception(__FILE__, __LINE__,
+            "trace belongs to no channel set of the record");
     CommonSEGD::ChannelSetHeader curr_ch_set =
-	   	common.channel_sets[get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1]
-		[get<int64_t>(hdr["CH_SET_NUM"]) - 1];
+        common.channel_sets[scan_type][ch_set];
     if (hdr.find("SAMP_NUM") != hdr.end())
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
-- 
2.43.0


From 475f39c9078ec5247248a469339ced6c481842fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 40/77] fix: general trailers follow the traces of a record

They were read as headers of the next record.
---
 src/ISEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 9eaf09b..89785d6 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -129,7 +129,7 @@ private:
 
 bool ISEGD::has_record()
 {
-    return pimpl->curr_pos != pimpl->end_of_data;
+    return pimpl->curr_pos < pimpl->end_of_data;
 }
 
 bool ISEGD::has_trace()
@@ -145,6 +145,7 @@ Trace ISEGD::read_trace()
     vector<double> samples = pimpl->read_trace_samples(hdr);
     ++pimpl->chans_read;
     if (pimpl->chans_in_record == pimpl->chans_read) {
+        pimpl->read_trailer();
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
         if (has_record())
@@ -1417,7 +1418,7 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(CommonSEGD::GEN_TRLR_SIZE *
+        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
 					   	common.general_header2.gen_trailer_num_of_blocks);
 }
 
-- 
2.43.0


From b606e9c4d6a1e246351b2e2a768a594e5c54194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:40 +0000
Subject: [PATCH 41/77] fix: additional general headers of the previous record
 were kept

---
 src/ISEGD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 89785d6..e533d7e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -291,6 +291,7 @@ void ISEGD::Impl::assign_raw_readers()
 
 void ISEGD::Impl::read_general_headers()
 {
+    common.add_gen_hdr_blks_map.clear();
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
     read_gen_hdr1(buf);
-- 
2.43.0


From 843a1387b1f98d590819bc4655282fb290f14a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:49 +0000
Subject: [PATCH 42/77] fix: number of additional general headers wrapped
 around

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index e533d7e..117c9c5 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -316,7 +316,7 @@ void ISEGD::Impl::read_general_headers()
             uint16_t add_blks_num = common.general_header.add_gen_hdr_blocks ==
 			   	0xf ? gh2.ext_num_add_blks_in_gen_hdr :
 			   	common.general_header.add_gen_hdr_blocks;
-            for (uint16_t i = add_blks_num - 2; i; --i) {
+            for (int i = add_blks_num - 2; i > 0; --i) {
                 fill_buf_from_file(common.gen_hdr_buf,
 								   CommonSEGD::GEN_HDR_SIZE);
                 read_rev3_add_gen_hdr_blks(common.gen_hdr_buf);
-- 
2.43.0


From 97b29fc7544d3747461ded4c852d401118cf41f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:17 +0000
Subject: [PATCH 43/77] fix: trace header extensions overflowed the trace
 header buffer

---
 src/OSEGD.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4fbefa6..1432dae 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -925,7 +925,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
-        std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
         if (common.trace_header_extension.size()) {
             for (auto& item : common.trace_header_extension[i]) {
@@ -933,7 +933,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 if (tmp == std::nullopt)
                     throw Exception(__FILE__, __LINE__,
                         "no such header in trace");
-                char* pos = common.trc_hdr_buf + item.first;
+                char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
                     write_i8(&pos, get<int64_t>(*tmp));
@@ -977,7 +977,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 }
             }
         } else if (i == 0) {
-            char* buf = common.trc_hdr_buf;
+            char* buf = common.trc_ext_hdr_buf;
             tmp = hdr.get("R_LINE");
             double r_line;
             int64_t r_line_int;
@@ -1054,7 +1054,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_hdr_buf,
+        common.file.write(common.trc_ext_hdr_buf,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
 }
-- 
2.43.0


From c61a5574b487b5b4f4113099e8a7f716e894ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:24 +0000
Subject: [PATCH 44/77] fix: writing a trace with more extensions than maps
 read past the maps

---
 src/OSEGD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 1432dae..b6a300e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -928,6 +928,8 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
         std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
         if (common.trace_header_extension.size()) {
+            // extensions without a map are filled with zeros
+            if (static_cast<size_t>(i) < common.trace_header_extension.size())
             for (auto& item : common.trace_header_extension[i]) {
                 tmp = hdr.get(item.second.first);
                 if (tmp == std::nullopt)
-- 
2.43.0


From f795018d11df64bd874e5ede6c235ab511e255e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:31 +0000
Subject: [PATCH 45/77] fix: number of channels in the record was not
 initialised

---
 src/OSEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b6a300e..1771eae 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -38,7 +38,8 @@ public:
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
     Impl(CommonSEGD com)
-        : common { move(com) }
+        : chans_in_record { 0 }
+        , common { move(com) }
     {
     }
     CommonSEGD common;
-- 
2.43.0


From b3bb80e825fcff087bc099e2f319f9aab51a3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:37 +0000
Subject: [PATCH 46/77] fix: signed SEGD writers take signed values

Negative samples were converted from double to an unsigned or a shorter type,
which is undefined.
---
 src/OSEGD.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 1771eae..f491d7f 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -47,15 +47,15 @@ public:
 private:
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
-    function<void(char**, uint8_t)> write_i8;
+    function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
-    function<void(char**, uint16_t)> write_i16;
+    function<void(char**, int16_t)> write_i16;
     function<void(char**, uint32_t)> write_u24;
-    function<void(char**, uint32_t)> write_i24;
+    function<void(char**, int32_t)> write_i24;
     function<void(char**, uint32_t)> write_u32;
-    function<void(char**, uint32_t)> write_i32;
+    function<void(char**, int32_t)> write_i32;
     function<void(char**, uint64_t)> write_u64;
-    function<void(char**, uint64_t)> write_i64;
+    function<void(char**, int64_t)> write_i64;
     function<void(char**, double)> write_ibm_float;
     function<void(char**, float)> write_IEEE_float;
     function<void(char**, double)> write_IEEE_double;
@@ -109,7 +109,7 @@ void OSEGD::Impl::assign_raw_writers()
         };
         write_u32 = [](char** buf, uint32_t val)
 	   	{ write<uint32_t>(buf, val); };
-        write_u32 = [](char** buf, int32_t val) { write<int32_t>(buf, val); };
+        write_i32 = [](char** buf, int32_t val) { write<int32_t>(buf, val); };
         write_u64 = [](char** buf, uint64_t val)
 	   	{ write<uint64_t>(buf, val); };
         write_i64 = [](char** buf, int64_t val)
@@ -1210,8 +1210,9 @@ void OSEGD::Impl::assign_sample_writers()
 		   	{ return write_i24(buf, swap(static_cast<int32_t>(val))); };
         else
             write_sample = [](char** buf, double val) {
-                write<int16_t>(buf, val);
-                write<int8_t>(buf, static_cast<int32_t>(val) >> 16);
+                int32_t tmp = val;
+                write<int16_t>(buf, tmp);
+                write<int8_t>(buf, tmp >> 16);
             };
         break;
     case 9038:
-- 
2.43.0


From d80f3432bf2cdba3b3f24be88513b7c5b00ae5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:17 +0000
Subject: [PATCH 47/77] fix: writing a trace without CH_SET_NUM dereferenced an
 empty optional

An absent SCAN_TYPE_NUM was written as 0, which no reader accepts.
---
 src/OSEGD.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index f491d7f..d107ceb 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -894,13 +894,15 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
         write_u16(&buf, 0xffff);
     else
         to_bcd(&buf, ffid ? get<int64_t>(*ffid) : 0, false, 4);
+    // absent numbers are 1, as for writing of samples
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 2);
-    optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && get<int64_t>(*ch_set) > 99)
+    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 1, false, 2);
+    tmp = hdr.get("CH_SET_NUM");
+    int64_t ch_set = tmp ? get<int64_t>(*tmp) : 1;
+    if (ch_set > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, get<int64_t>(*ch_set), false, 2);
+        to_bcd(&buf, ch_set, false, 2);
     tmp = hdr.get("CHAN");
     if (tmp && get<int64_t>(*tmp) > 9999)
         write_u16(&buf, 0xffff);
@@ -916,7 +918,7 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
     write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
-    write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
+    write_u16(&buf, ch_set < 100 ? 0 : ch_set);
     write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
-- 
2.43.0


From 3f08b84d821b0bcc3a04de10aa7a4ed5557ed123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:23 +0000
Subject: [PATCH 48/77] fix: byte values above 127 were converted from double
 to char

---
 src/OSEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index d107ceb..8dd5c7b 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -201,7 +201,8 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.manufac_code, false, 2);
     to_bcd(&ptr, common.general_header.manufac_num, false, 4);
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
-    *ptr++ = common.general_header.base_scan_int * pow(2, 4);
+    *ptr++ = static_cast<uint8_t>(common.general_header.base_scan_int *
+								  pow(2, 4));
     to_bcd(&ptr, common.general_header.polarity, false, 1);
     int exp = static_cast<unsigned>(log2(common.general_header.
 										 scans_per_block)) & 0x0f;
@@ -913,7 +914,7 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     tmp = hdr.get("TR_HDR_EXT");
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("SAMPLE_SKEW");
-    *buf++ = tmp ? get<double>(*tmp) * pow(2, 8) : 0;
+    *buf++ = static_cast<uint8_t>(tmp ? get<double>(*tmp) * pow(2, 8) : 0);
     tmp = hdr.get("TRACE_EDIT");
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
-- 
2.43.0


From aa80cfb8ea1e7c388bad38652139fd7f83955aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:28 +0000
Subject: [PATCH 49/77] fix: number of scans per block was rounded down to a
 power of 2

And its logarithm taken when it is 0.
---
 src/OSEGD.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 8dd5c7b..6afa2dd 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -204,10 +204,12 @@ void OSEGD::Impl::write_general_header1()
     *ptr++ = static_cast<uint8_t>(common.general_header.base_scan_int *
 								  pow(2, 4));
     to_bcd(&ptr, common.general_header.polarity, false, 1);
-    int exp = static_cast<unsigned>(log2(common.general_header.
-										 scans_per_block)) & 0x0f;
+    // least exponent that leaves a value of one byte
+    int exp = 0;
+    while (exp < 15 && common.general_header.scans_per_block >> exp > 255)
+        ++exp;
     *ptr++ |= exp;
-    *ptr++ = common.general_header.scans_per_block / pow(2, exp);
+    *ptr++ = common.general_header.scans_per_block >> exp;
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.ext_record_len) {
         write_u16(&ptr, 0x0fff |
-- 
2.43.0


From 52e851fee9d8d789772fede9c81273afad772146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:06 +0000
Subject: [PATCH 50/77] fix: writing a trace of an unknown channel set read
 past the channel sets

---
 src/OSEGD.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 6afa2dd..6b7c27e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -902,6 +902,13 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 1, false, 2);
     tmp = hdr.get("CH_SET_NUM");
     int64_t ch_set = tmp ? get<int64_t>(*tmp) : 1;
+    tmp = hdr.get("SCAN_TYPE_NUM");
+    size_t scan_type = (tmp ? get<int64_t>(*tmp) : 1) - 1;
+    if (scan_type >= common.channel_sets.size() ||
+        static_cast<size_t>(ch_set - 1) >=
+        common.channel_sets[scan_type].size())
+        throw Exception(__FILE__, __LINE__,
+            "trace belongs to no channel set of the record");
     if (ch_set > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-- 
2.43.0


From 947aa6ac1523716d87325561d934474504bf489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:13 +0000
Subject: [PATCH 51/77] fix: write negative descale multipliers, source lines
 and points

They were converted to unsigned types, which is undefined.
---
 src/OSEGD.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 6b7c27e..e9005d3 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -266,11 +266,11 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
         CommonSEGD::GeneralHeaderN* hdr = dynamic_cast<CommonSEGD::GeneralHeaderN*>
 				  (it->second.get());
         write_u24(&buf, hdr->expanded_file_number);
-        uint32_t integer = hdr->sou_line_num;
+        int32_t integer = floor(hdr->sou_line_num);
         double frac = hdr->sou_line_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-        integer = hdr->sou_point_num;
+        integer = floor(hdr->sou_point_num);
         frac = hdr->sou_point_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
@@ -833,7 +833,7 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-        uint16_t val = static_cast<uint16_t>(hdr.descale_multiplier *
+        uint16_t val = static_cast<uint16_t>(abs(hdr.descale_multiplier) *
 											 pow(2, 10)) & 0x7fff;
         write_u16(&buf, val | sign);
         to_bcd(&buf, hdr.number_of_channels, false, 4);
-- 
2.43.0


From f534f9e63b8b09a5566f3785b9a4b09194542d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:15 +0000
Subject: [PATCH 52/77] fix: record the SEGD revision that is written, and no
 trailers

Headers of a file read are handed to the writer.
---
 src/OSEGDRev2_1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3c1acbd..0209d07 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -25,6 +25,10 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
 {
+    // what is written is revision 2.1 without trailers
+    sgd.common().general_header2.segd_rev_major = 2;
+    sgd.common().general_header2.segd_rev_minor = 1;
+    sgd.common().general_header2.gen_trailer_num_of_blocks = 0;
     sgd.assign_raw_writers();
     sgd.assign_sample_writers();
     sgd.write_general_header1();
-- 
2.43.0


From c8e60b1c5ae5ae200ac4254b23294c90bcdba71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:17 +0000
Subject: [PATCH 53/77] fix: refuse to announce other than the given additional
 general headers

The file could not be read: a block more or less than announced was written.
---
 src/OSEGDRev2_1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 0209d07..5efe575 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -25,6 +25,11 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
 {
+    if (static_cast<size_t>(sgd.common().general_header.add_gen_hdr_blocks) !=
+        sgd.common().add_gen_hdr_blks_map.size() + 1)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of additional general headers not equal to "
+                        "number of blocks in general header.");
     // what is written is revision 2.1 without trailers
     sgd.common().general_header2.segd_rev_major = 2;
     sgd.common().general_header2.segd_rev_minor = 1;
-- 
2.43.0


From 7ec14da60ad4c9233baa3e7d33e4b573f3d92eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:20 +0000
Subject: [PATCH 54/77] fix: read past the extended and external headers that
 are given

---
 src/OSEGDRev2_1.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 5efe575..d6ba4e3 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -68,6 +68,15 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
 	   	sgd.common().general_header.external_hdr_blocks > 99 ?
 	   	sgd.common().general_header2.external_hdr_blocks :
 	   	sgd.common().general_header.external_hdr_blocks;
+    if (sgd.common().extended_headers.size() != extended_blocks ||
+        sgd.common().external_headers.size() != external_blocks)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of extended or external headers not equal to "
+                        "number of blocks in general header.");
+    for (vector<char>& hdr : sgd.common().extended_headers)
+        hdr.resize(CommonSEGD::EXTENDED_HEADER_SIZE);
+    for (vector<char>& hdr : sgd.common().external_headers)
+        hdr.resize(CommonSEGD::EXTERNAL_HEADER_SIZE);
     for (uint32_t i = 0; i < extended_blocks; ++i)
         sgd.common().file.write(sgd.common().extended_headers[i].data(),
         CommonSEGD::EXTENDED_HEADER_SIZE);
-- 
2.43.0


From 7e1e3c5d788998ed32fca19e22531647d1e002b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:05 +0000
Subject: [PATCH 55/77] fix: refuse SEGD traces with other than the recorded
 number of samples

A reader takes the samples that exceed it as the next trace.
---
 src/OSEGDRev2_1.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index d6ba4e3..c7978b2 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -92,6 +92,13 @@ void OSEGDRev2_1::write_trace(Trace& t)
 		throw Exception(__FILE__, __LINE__,
 						"you tring write more traces than specified "
 						"in channel set headers");
+    std::optional<Trace::Header::Value> ext = t.header().get("TR_HDR_EXT");
+    std::optional<Trace::Header::Value> num = t.header().get("SAMP_NUM");
+    if (num ? static_cast<size_t>(std::get<int64_t>(*num)) !=
+        t.samples().size() : ext && std::get<int64_t>(*ext) &&
+        common().trace_header_extension.empty())
+        throw Exception(__FILE__, __LINE__,
+                        "SAMP_NUM not equal to number of samples in trace");
     write_trace_header(t.header());
     write_ext_trace_headers(t.header());
     write_trace_samples(t);
-- 
2.43.0


From 8689fb083fab7c0f272e93ec140486d6d450b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:12 +0000
Subject: [PATCH 56/77] fix: write 8022, 8024, 8042, 8044 and 8048 samples

8022 and 8042 samples were all written over the first one, the exponents were
those of a base other than the readers', and that of zero undefined.
---
 src/OSEGD.cpp | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index e9005d3..4e1d681 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -175,10 +175,14 @@ void OSEGD::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
+        int exp2 = 0;
+        frexp(abs_val, &exp2);
+        // least power of 16 that exceeds abs_val, or the least there is
+        int exp16 = (exp2 + 4 * 512 + 3) / 4 - 512;
+        if (abs_val == 0 || exp16 < -64)
+            exp16 = -64;
+        uint32_t exp = static_cast<uint32_t>(exp16 + 64) & 0x7f;
+        uint32_t fraction = ldexp(abs_val, 24 - 4 * exp16);
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
         write_u32(buf, result);
     };
@@ -1135,11 +1139,12 @@ void OSEGD::Impl::assign_sample_writers()
         write_sample = [](char** buf, double val) {
             uint32_t sign = val < 0 ? 1 : 0;
             double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 4) & 0b111;
+            int exp = 0;
+            while (exp < 7 && abs_val >= pow(2, exp))
+                ++exp;
             uint32_t frac = static_cast<uint32_t>(abs_val /
 												  pow(2, exp - 4)) & 0xf;
-            **buf++ = sign << 7 | exp << 4 | frac;
+            write<uint8_t>(buf, sign << 7 | exp << 4 | frac);
         };
         break;
     case 8024:
@@ -1147,8 +1152,9 @@ void OSEGD::Impl::assign_sample_writers()
         write_sample = [this](char** buf, double val) {
             uint32_t sign = val < 0 ? 1 : 0;
             double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 12) & 0b111;
+            int exp = 0;
+            while (exp < 7 && abs_val >= pow(2, exp))
+                ++exp;
             uint32_t frac = static_cast<uint32_t>(abs_val /
 												  pow(2, exp - 12)) & 0xfff;
             write_u16(buf, sign << 15 | exp << 12 | frac);
@@ -1167,11 +1173,12 @@ void OSEGD::Impl::assign_sample_writers()
         write_sample = [](char** buf, double val) {
             uint32_t sign = val < 0 ? 1 : 0;
             double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
+            int exp = 0;
+            while (exp < 3 && abs_val >= pow(16, exp))
+                ++exp;
             uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
 												  pow(2, 5)) & 0x1f;
-            **buf++ = sign << 7 | exp << 5 | frac;
+            write<uint8_t>(buf, sign << 7 | exp << 5 | frac);
         };
         break;
     case 8044:
@@ -1179,8 +1186,9 @@ void OSEGD::Impl::assign_sample_writers()
         write_sample = [this](char** buf, double val) {
             uint32_t sign = val < 0 ? 1 : 0;
             double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
+            int exp = 0;
+            while (exp < 3 && abs_val >= pow(16, exp))
+                ++exp;
             uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
 												  pow(2, 13)) & 0x1fff;
             write_u16(buf, sign << 15 | exp << 13 | frac);
@@ -1188,15 +1196,7 @@ void OSEGD::Impl::assign_sample_writers()
         break;
     case 8048:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 + 1)
-			   	& 0b01111111;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 24)) & 0xffffff;
-            write_u32(buf, sign << 31 | exp << 24 | frac);
-        };
+        write_sample = write_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
-- 
2.43.0


From 9fcad3a02f450092727e7e600e6d458684dd1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:18 +0000
Subject: [PATCH 57/77] fix: write 20-bit samples of SEGD

The state was shared by all writers, the last group of a trace not written if
incomplete and all samples had the sign of the last one of their group.
---
 src/OSEGD.cpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4e1d681..6725ce2 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -46,6 +46,9 @@ public:
 
 private:
     function<void(char**, double)> write_sample;
+    // group of 20-bit samples which share their exponents' bytes
+    double group[4];
+    int group_pos = 0;
     function<void(char**, uint8_t)> write_u8;
     function<void(char**, int8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
@@ -1080,10 +1083,11 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
 
 void OSEGD::Impl::write_trace_samples(Trace const& trc)
 {
-    if (common.trc_samp_buf.size() != trc.samples().size() *
-	   	common.bits_per_sample / 8)
-        common.trc_samp_buf.resize(trc.samples().size() *
-								   common.bits_per_sample / 8);
+    size_t samp_in_buf = trc.samples().size();
+    // samples of 20 bits are recorded in groups of 4
+    if (common.bits_per_sample == 20)
+        samp_in_buf = (samp_in_buf + 3) / 4 * 4;
+    common.trc_samp_buf.resize(samp_in_buf * common.bits_per_sample / 8);
     char* buf = common.trc_samp_buf.data();
     vector<double> const& samples = trc.samples();
     uint16_t scan_type;
@@ -1103,6 +1107,8 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     descale = pow(2, descale);
     for (auto samp : samples)
         write_sample(&buf, samp / descale);
+    for (size_t i = samples.size(); i < samp_in_buf; ++i)
+        write_sample(&buf, 0);
     common.file.write(common.trc_samp_buf.data(), common.trc_samp_buf.size());
 }
 
@@ -1112,25 +1118,21 @@ void OSEGD::Impl::assign_sample_writers()
     case 8015:
         common.bits_per_sample = 20;
         write_sample = [this](char** buf, double val) {
-            static double result[4];
-            static int counter = 0;
-            result[counter++] = val;
-            if (counter == 4) {
-                counter = 0;
-                uint32_t sign = val < 0 ? 1 : 0;
-                uint16_t exp[4], frac[4];
+            group[group_pos++] = val;
+            if (group_pos == 4) {
+                group_pos = 0;
+                int exp[4];
+                int16_t frac[4];
                 for (int i = 0; i < 4; ++i) {
-                    double abs_val = abs(result[i]);
-                    exp[i] = static_cast<uint16_t>(log(abs_val) /
-												   log(2) + 1 + 15) & 0xf;
-                    frac[i] = abs_val / pow(2, exp[i] - 15);
-                }
-                for (int i = 0; i < 4; i += 2) {
-                    **buf = exp[i] << 4 | exp[i + 1];
-                    ++*buf;
+                    exp[i] = 0;
+                    while (exp[i] < 15 && abs(group[i]) >= pow(2, exp[i]))
+                        ++exp[i];
+                    frac[i] = group[i] / pow(2, exp[i] - 15);
                 }
+                for (int i = 0; i < 4; i += 2)
+                    write<uint8_t>(buf, exp[i] << 4 | exp[i + 1]);
                 for (int i = 0; i < 4; ++i)
-                    write_i16(buf, frac[i] | sign << 15);
+                    write_i16(buf, frac[i]);
             }
         };
         break;
-- 
2.43.0


From 32b3abe95803f885f2006b9adada02f35eef5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:43 +0000
Subject: [PATCH 58/77] fix: names of orientation header values

The table of names lacked one and the enumeration had one too many.
---
 include/CommonSEGD.hpp | 3 +--
 src/CommonSEGD.cpp     | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index 439618c..4259371 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1362,8 +1362,7 @@ public:
             ORIENT_TYPE,
             REF_ORIENT_VALID,
             ROTATION_APPLIED,
-            ROT_NORTH,
-            APPLIED,
+            ROT_NORTH_APPLIED,
             GEN_HEADER_TYPE
         };
         ///
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index b3f3d73..b6d8ad7 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -763,6 +763,7 @@ static char const* ghOri_names[] = {
     "Time Stamp",
     "Orientation Type",
     "Ref Orient Valid",
+    "Rotation Applied",
     "Rot North Applied",
     "General header type"
 };
-- 
2.43.0


From e85c4ce428ab1262d123b64ccaa6a623a51b8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:24 +0000
Subject: [PATCH 59/77] fix: Python names bound to another member

group_idx and offset_crossline of electromagnetic source, freq2, amp2 and
phase2 of sensor calibration, client name and explosive info getters.
---
 src/pybind/pybind.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 363e416..23748fe 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -706,9 +706,11 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderEle_py.def_readwrite("reshoot_idx",
                                     &CommonSEGD::GeneralHeaderEle::reshoot_idx);
   GeneralHeaderEle_py.def_readwrite("group_idx",
+                                    &CommonSEGD::GeneralHeaderEle::group_idx);
+  GeneralHeaderEle_py.def_readwrite("depth_idx",
                                     &CommonSEGD::GeneralHeaderEle::depth_idx);
   GeneralHeaderEle_py.def_readwrite(
-      "offset_crossline", &CommonSEGD::GeneralHeaderEle::offset_inline);
+      "offset_crossline", &CommonSEGD::GeneralHeaderEle::offset_crossline);
   GeneralHeaderEle_py.def_readwrite(
       "offset_inline", &CommonSEGD::GeneralHeaderEle::offset_inline);
   GeneralHeaderEle_py.def_readwrite("size",
@@ -955,11 +957,11 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderSCa_py.def_readwrite("phase1",
                                     &CommonSEGD::GeneralHeaderSCa::phase1);
   GeneralHeaderSCa_py.def_readwrite("freq2",
-                                    &CommonSEGD::GeneralHeaderSCa::freq1);
+                                    &CommonSEGD::GeneralHeaderSCa::freq2);
   GeneralHeaderSCa_py.def_readwrite("amp2",
-                                    &CommonSEGD::GeneralHeaderSCa::amp1);
+                                    &CommonSEGD::GeneralHeaderSCa::amp2);
   GeneralHeaderSCa_py.def_readwrite("phase2",
-                                    &CommonSEGD::GeneralHeaderSCa::phase1);
+                                    &CommonSEGD::GeneralHeaderSCa::phase2);
   GeneralHeaderSCa_py.def_readwrite(
       "calib_applied", &CommonSEGD::GeneralHeaderSCa::calib_applied);
   GeneralHeaderSCa_py.def_readwrite(
@@ -1137,7 +1139,7 @@ PYBIND11_MODULE(pysedaman, m) {
                "Returns general header vessel crew id.");
   ISEGD_py.def("general_header_survey_name", &ISEGD::general_header_survey_name,
                "Returns general header survey survey name.");
-  ISEGD_py.def("general_header_client_name", &ISEGD::general_header_survey_name,
+  ISEGD_py.def("general_header_client_name", &ISEGD::general_header_client_name,
                "Returns general header client name.");
   ISEGD_py.def("general_header_job_id", &ISEGD::general_header_job_id,
                "Returns general header job id.");
@@ -1147,7 +1149,7 @@ PYBIND11_MODULE(pysedaman, m) {
                &ISEGD::general_header_vibrator_info,
                "Returns general header vibrator source info.");
   ISEGD_py.def("general_header_explosive_info",
-               &ISEGD::general_header_airgun_info,
+               &ISEGD::general_header_explosive_info,
                "Returns general header explosive source info.");
   ISEGD_py.def("general_header_airgun_info", &ISEGD::general_header_airgun_info,
                "Returns general header airgun source info.");
-- 
2.43.0


From 4ad4a02c3fc2e0e765d4d561a931e99f84f616ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:24 +0000
Subject: [PATCH 60/77] fix: members missing from Python bindings

---
 src/pybind/pybind.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 23748fe..f0a76e2 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -41,6 +41,8 @@ PYBIND11_MODULE(pysedaman, m) {
       .value("uint8_t", Trace::Header::ValueType::uint8_t)
       .value("int16_t", Trace::Header::ValueType::int16_t)
       .value("uint16_t", Trace::Header::ValueType::uint16_t)
+      .value("int24_t", Trace::Header::ValueType::int24_t)
+      .value("uint24_t", Trace::Header::ValueType::uint24_t)
       .value("int32_t", Trace::Header::ValueType::int32_t)
       .value("uint32_t", Trace::Header::ValueType::uint32_t)
       .value("int64_t", Trace::Header::ValueType::int64_t)
@@ -398,6 +400,8 @@ PYBIND11_MODULE(pysedaman, m) {
                                   &CommonSEGD::GeneralHeaderN::sou_line_num);
   GeneralHeaderN_py.def_readwrite("sou_point_num",
                                   &CommonSEGD::GeneralHeaderN::sou_point_num);
+  GeneralHeaderN_py.def_readwrite("sou_point_index",
+                                  &CommonSEGD::GeneralHeaderN::sou_point_index);
   GeneralHeaderN_py.def_readwrite("phase_control",
                                   &CommonSEGD::GeneralHeaderN::phase_control);
   GeneralHeaderN_py.def_readwrite("type_vibrator",
@@ -984,6 +988,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "timedrift_corr", &CommonSEGD::GeneralHeaderTim::timedrift_corr);
   GeneralHeaderTim_py.def_readwrite("corr_method",
                                     &CommonSEGD::GeneralHeaderTim::corr_method);
+  GeneralHeaderTim_py.def_readwrite(
+      "gen_hdr_block_type", &CommonSEGD::GeneralHeaderTim::gen_hdr_block_type);
   py::enum_<CommonSEGD::GeneralHeaderTim::Name>(GeneralHeaderTim_py, "Name");
   GeneralHeaderTim_py.def("name_as_string",
                           &CommonSEGD::GeneralHeaderTim::name_as_string);
@@ -1050,6 +1056,9 @@ PYBIND11_MODULE(pysedaman, m) {
       "quantity_class", &CommonSEGD::GeneralHeaderMeas::quantity_class);
   GeneralHeaderMeas_py.def_readwrite(
       "unit_of_measure", &CommonSEGD::GeneralHeaderMeas::unit_of_measure);
+  GeneralHeaderMeas_py.def_readwrite(
+      "measurement_description",
+      &CommonSEGD::GeneralHeaderMeas::measurement_description);
   GeneralHeaderMeas_py.def_readwrite(
       "gen_hdr_block_type", &CommonSEGD::GeneralHeaderMeas::gen_hdr_block_type);
   py::enum_<CommonSEGD::GeneralHeaderMeas::Name>(GeneralHeaderMeas_py, "Name");
@@ -1098,6 +1107,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "third_notch_filter", &CommonSEGD::ChannelSetHeader::third_notch_filter);
   ChannelSetHeader_py.def_readwrite(
       "ext_ch_set_num", &CommonSEGD::ChannelSetHeader::ext_ch_set_num);
+  ChannelSetHeader_py.def_readwrite(
+      "ext_hdr_flag", &CommonSEGD::ChannelSetHeader::ext_hdr_flag);
   ChannelSetHeader_py.def_readwrite("trc_hdr_ext",
                                     &CommonSEGD::ChannelSetHeader::trc_hdr_ext);
   ChannelSetHeader_py.def_readwrite("vert_stack",
@@ -1111,6 +1122,8 @@ PYBIND11_MODULE(pysedaman, m) {
   ChannelSetHeader_py.def("samp_int", &CommonSEGD::ChannelSetHeader::samp_int);
   ChannelSetHeader_py.def("filter_phase",
                           &CommonSEGD::ChannelSetHeader::filter_phase);
+  ChannelSetHeader_py.def("physical_unit",
+                          &CommonSEGD::ChannelSetHeader::physical_unit);
   ChannelSetHeader_py.def("filter_delay",
                           &CommonSEGD::ChannelSetHeader::filter_delay);
   ChannelSetHeader_py.def("description",
@@ -1225,9 +1238,15 @@ PYBIND11_MODULE(pysedaman, m) {
   OSEGDRev2_1_py.def(
       py::init<string, CommonSEGD::GeneralHeader, CommonSEGD::GeneralHeader2,
                vector<vector<CommonSEGD::ChannelSetHeader>>,
-               vector<shared_ptr<CommonSEGD::AdditionalGeneralHeader>>>(),
+               vector<shared_ptr<CommonSEGD::AdditionalGeneralHeader>>,
+               vector<vector<char>>, vector<vector<char>>,
+               vector<map<uint32_t, pair<string, Trace::Header::ValueType>>>>(),
       py::arg("file_name"), py::arg("gh"), py::arg("gh2"), py::arg("ch_sets"),
       py::arg("add_ghs") =
-          vector<shared_ptr<CommonSEGD::AdditionalGeneralHeader>>());
+          vector<shared_ptr<CommonSEGD::AdditionalGeneralHeader>>(),
+      py::arg("extended_headers") = vector<vector<char>>(),
+      py::arg("external_headers") = vector<vector<char>>(),
+      py::arg("trc_hdr_ext") =
+          vector<map<uint32_t, pair<string, Trace::Header::ValueType>>>());
 }
 } // namespace sedaman
-- 
2.43.0


From 4fcfd647e6363a2d57003f7ccceab933d8af8029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:27 +0000
Subject: [PATCH 61/77] fix: general headers of previous record used for the
 next one

A record without general header 2 after one with it was read as if it had
the revision of the previous record.
---
 src/ISEGD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 117c9c5..32397e9 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -292,6 +292,8 @@ void ISEGD::Impl::assign_raw_readers()
 void ISEGD::Impl::read_general_headers()
 {
     common.add_gen_hdr_blks_map.clear();
+    common.general_header2 = {};
+    common.general_header3 = {};
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
     read_gen_hdr1(buf);
-- 
2.43.0


From 22e0affeade0126682063bc3df9bd74ecaf1dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:46 +0000
Subject: [PATCH 62/77] fix: additional general header of other type than its
 class dereferenced a null pointer

A rev 2 block numbered 16 or more was also taken for a block of rev 3.
---
 src/CommonSEGD.cpp | 59 +++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index b6d8ad7..b4b1623 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -69,139 +69,144 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     fl.open(file_name, mode);
     file = move(fl);
     for (shared_ptr<AdditionalGeneralHeader>& item : add_ghs) {
+        // block numbers of rev 2 overlap with block types of rev 3
+        if (GeneralHeaderN* hdr = dynamic_cast<GeneralHeaderN*>(item.get())) {
+            add_gen_hdr_blks_map[item->type()] =
+                make_unique<GeneralHeaderN>(*hdr);
+            continue;
+        }
         switch (item->type()) {
         case AdditionalGeneralHeader::VESSEL_CREW_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::VESSEL_CREW_ID] =
 			   	make_unique<GeneralHeaderVes>(
-					*dynamic_cast<GeneralHeaderVes*>(item.get()));
+					dynamic_cast<GeneralHeaderVes&>(*item));
             break;
         case AdditionalGeneralHeader::SURVEY_AREA_NAME:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::SURVEY_AREA_NAME] =
 			   	make_unique<GeneralHeaderSur>(
-					*dynamic_cast<GeneralHeaderSur*>(item.get()));
+					dynamic_cast<GeneralHeaderSur&>(*item));
             break;
         case AdditionalGeneralHeader::CLIENT_NAME:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::CLIENT_NAME] =
 			   	make_unique<GeneralHeaderCli>(
-					*dynamic_cast<GeneralHeaderCli*>(item.get()));
+					dynamic_cast<GeneralHeaderCli&>(*item));
             break;
         case AdditionalGeneralHeader::JOB_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::JOB_ID] =
 			   	make_unique<GeneralHeaderJob>(
-					*dynamic_cast<GeneralHeaderJob*>(item.get()));
+					dynamic_cast<GeneralHeaderJob&>(*item));
             break;
         case AdditionalGeneralHeader::LINE_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::LINE_ID] =
 			   	make_unique<GeneralHeaderLin>(
-					*dynamic_cast<GeneralHeaderLin*>(item.get()));
+					dynamic_cast<GeneralHeaderLin&>(*item));
             break;
         case AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderVib>(
-					*dynamic_cast<GeneralHeaderVib*>(item.get()));
+					dynamic_cast<GeneralHeaderVib&>(*item));
             break;
         case AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderExp>(
-					*dynamic_cast<GeneralHeaderExp*>(item.get()));
+					dynamic_cast<GeneralHeaderExp&>(*item));
             break;
         case AdditionalGeneralHeader::AIRGUN_SOURCE_INFO:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::AIRGUN_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderAir>(
-					*dynamic_cast<GeneralHeaderAir*>(item.get()));
+					dynamic_cast<GeneralHeaderAir&>(*item));
             break;
         case AdditionalGeneralHeader::WATERGUN_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::WATERGUN_SOURCE_INFO]	=
 			   	make_unique<GeneralHeaderWat>(
-					*dynamic_cast<GeneralHeaderWat*>(item.get()));
+					dynamic_cast<GeneralHeaderWat&>(*item));
             break;
         case AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE] =
 			   	make_unique<GeneralHeaderEle>(
-					*dynamic_cast<GeneralHeaderEle*>(item.get()));
+					dynamic_cast<GeneralHeaderEle&>(*item));
             break;
         case AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO] =
 			   	make_unique<GeneralHeaderOth>(
-					*dynamic_cast<GeneralHeaderOth*>(item.get()));
+					dynamic_cast<GeneralHeaderOth&>(*item));
             break;
         case AdditionalGeneralHeader::ADD_SOURCE_INFO:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::ADD_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderAdd>(
-					*dynamic_cast<GeneralHeaderAdd*>(item.get()));
+					dynamic_cast<GeneralHeaderAdd&>(*item));
             break;
         case AdditionalGeneralHeader::SOU_AUX_CHAN_REF:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::SOU_AUX_CHAN_REF] =
 			   	make_unique<GeneralHeaderSaux>(
-					*dynamic_cast<GeneralHeaderSaux*>(item.get()));
+					dynamic_cast<GeneralHeaderSaux&>(*item));
             break;
         case AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK] =
 			   	make_unique<GeneralHeaderSen>(
-					*dynamic_cast<GeneralHeaderSen*>(item.get()));
+					dynamic_cast<GeneralHeaderSen&>(*item));
             break;
         case AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK]
 			   	= make_unique<GeneralHeaderSCa>(
-					*dynamic_cast<GeneralHeaderSCa*>(item.get()));
+					dynamic_cast<GeneralHeaderSCa&>(*item));
             break;
         case AdditionalGeneralHeader::TIME_DRIFT_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::TIME_DRIFT_BLK] =
 			   	make_unique<GeneralHeaderTim>(
-					*dynamic_cast<GeneralHeaderTim*>(item.get()));
+					dynamic_cast<GeneralHeaderTim&>(*item));
             break;
         case AdditionalGeneralHeader::ELECTROMAG_SRC_REC_DESC_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::ELECTROMAG_SRC_REC_DESC_BLK] =
 			   	make_unique<GeneralHeaderElSR>(
-					*dynamic_cast<GeneralHeaderElSR*>(item.get()));
+					dynamic_cast<GeneralHeaderElSR&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK1:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK1] =
 			   	make_unique<GeneralHeaderPos1>(
-					*dynamic_cast<GeneralHeaderPos1*>(item.get()));
+					dynamic_cast<GeneralHeaderPos1&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK2:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK2] =
 			   	make_unique<GeneralHeaderPos2>(
-					*dynamic_cast<GeneralHeaderPos2*>(item.get()));
+					dynamic_cast<GeneralHeaderPos2&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK3:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK3] =
 			   	make_unique<GeneralHeaderPos3>(
-					*dynamic_cast<GeneralHeaderPos3*>(item.get()));
+					dynamic_cast<GeneralHeaderPos3&>(*item));
             break;
         case AdditionalGeneralHeader::COORD_REF_SYSTEM:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::COORD_REF_SYSTEM] =
 			   	make_unique<GeneralHeaderCoord>(
-					*dynamic_cast<GeneralHeaderCoord*>(item.get()));
+					dynamic_cast<GeneralHeaderCoord&>(*item));
             break;
         case AdditionalGeneralHeader::RELATIVE_POS_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::RELATIVE_POS_BLK] =
 			   	make_unique<GeneralHeaderRel>(
-					*dynamic_cast<GeneralHeaderRel*>(item.get()));
+					dynamic_cast<GeneralHeaderRel&>(*item));
             break;
         case AdditionalGeneralHeader::ORIENT_HDR_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::ORIENT_HDR_BLK] =
 			   	make_unique<GeneralHeaderOri>(
-					*dynamic_cast<GeneralHeaderOri*>(item.get()));
+					dynamic_cast<GeneralHeaderOri&>(*item));
             break;
         case AdditionalGeneralHeader::MEASUREMENT_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::MEASUREMENT_BLK] =
 			   	make_unique<GeneralHeaderMeas>(
-					*dynamic_cast<GeneralHeaderMeas*>(item.get()));
+					dynamic_cast<GeneralHeaderMeas&>(*item));
             break;
-        // for GeneralHeaderN from rev 2
         default:
-            add_gen_hdr_blks_map[item->type()] = make_unique<GeneralHeaderN>(
-                *dynamic_cast<GeneralHeaderN*>(item.get()));
+            throw Exception(__FILE__, __LINE__,
+                            "unknown type of additional general header");
             break;
         }
     }
-- 
2.43.0


From a1a4c2a20c34d42ae6dfebcb1d2494e287c4e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:52 +0000
Subject: [PATCH 63/77] fix: rev 3 additional general header given to rev 2.1
 writer dereferenced a null pointer

---
 src/OSEGD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 6725ce2..b1fd1fd 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -272,6 +272,9 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
         memset(buf, 0, CommonSEGD::GEN_HDR_SIZE);
         CommonSEGD::GeneralHeaderN* hdr = dynamic_cast<CommonSEGD::GeneralHeaderN*>
 				  (it->second.get());
+        if (!hdr)
+            throw Exception(__FILE__, __LINE__,
+                            "not an additional general header of rev 2");
         write_u24(&buf, hdr->expanded_file_number);
         int32_t integer = floor(hdr->sou_line_num);
         double frac = hdr->sou_line_num - integer;
-- 
2.43.0


From 6d876e291d7c37299cf2a053be9e5761b9c113d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:56 +0000
Subject: [PATCH 64/77] fix: bind group_idx of the explosive source header

---
 src/pybind/pybind.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index f0a76e2..f77420a 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -594,6 +594,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "source_set_num", &CommonSEGD::GeneralHeaderExp::source_set_num);
   GeneralHeaderExp_py.def_readwrite("reshoot_idx",
                                     &CommonSEGD::GeneralHeaderExp::reshoot_idx);
+  GeneralHeaderExp_py.def_readwrite("group_idx",
+                                    &CommonSEGD::GeneralHeaderExp::group_idx);
   GeneralHeaderExp_py.def_readwrite("depth_idx",
                                     &CommonSEGD::GeneralHeaderExp::depth_idx);
   GeneralHeaderExp_py.def_readwrite(
-- 
2.43.0


From be0b63d79a7f50435bd293c06b3520b00a40fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:00 +0000
Subject: [PATCH 65/77] fix: write SEG-D general header 3 to the file

---
 src/OSEGD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b1fd1fd..4034f2a 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -321,6 +321,7 @@ void OSEGD::Impl::write_general_header2_and_3()
     *buf++ = common.general_header3.extd_rec_mode;
     *buf++ = common.general_header3.rel_time_mode;
     *++buf = common.general_header3.gen_hdr_block_num;
+    common.file.write(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
 }
 
 void OSEGD::Impl::write_rev3_add_gen_hdrs()
-- 
2.43.0


From bb59743296288e3dc44e7ac1d8eed57b7880c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:07 +0000
Subject: [PATCH 66/77] fix: write the block type of SEG-D text blocks, not its
 size

---
 src/OSEGD.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4034f2a..7485838 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -448,7 +448,7 @@ void OSEGD::Impl::write_vessel_crew_id(char* buf,
     size = sizeof(hdr->vessel_crew_name);
     memcpy(buf, hdr->vessel_crew_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_survey_area_name(char* buf,
@@ -457,7 +457,7 @@ void OSEGD::Impl::write_survey_area_name(char* buf,
     size_t size = sizeof(hdr->survey_area_name);
     memcpy(buf, hdr->survey_area_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_client_name(char* buf,
@@ -466,7 +466,7 @@ void OSEGD::Impl::write_client_name(char* buf,
     size_t size = sizeof(hdr->client_name);
     memcpy(buf, hdr->client_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_job_id(char* buf,
@@ -478,7 +478,7 @@ void OSEGD::Impl::write_job_id(char* buf,
     size = sizeof(hdr->job_id);
     memcpy(buf, hdr->job_id, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
@@ -489,7 +489,7 @@ void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
     size = sizeof(hdr->line_id);
     memcpy(buf, hdr->line_id, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_vibrator_hdr(char* buf,
-- 
2.43.0


From 8c309abcc53322ac3799d9361abb690778dec7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:12 +0000
Subject: [PATCH 67/77] fix: write the file number of SEG-D source blocks in
 three bytes

---
 src/OSEGD.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 7485838..c385e7b 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -495,7 +495,7 @@ void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
 void OSEGD::Impl::write_vibrator_hdr(char* buf,
 									 CommonSEGD::GeneralHeaderVib* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -523,7 +523,7 @@ void OSEGD::Impl::write_vibrator_hdr(char* buf,
 void OSEGD::Impl::write_explosive_hdr(char* buf,
 									  CommonSEGD::GeneralHeaderExp* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -551,7 +551,7 @@ void OSEGD::Impl::write_explosive_hdr(char* buf,
 void OSEGD::Impl::write_airgun_hdr(char* buf,
 								   CommonSEGD::GeneralHeaderAir* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -578,7 +578,7 @@ void OSEGD::Impl::write_airgun_hdr(char* buf,
 void OSEGD::Impl::write_watergun_hdr(char* buf,
 									 CommonSEGD::GeneralHeaderWat* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -605,7 +605,7 @@ void OSEGD::Impl::write_watergun_hdr(char* buf,
 void OSEGD::Impl::write_electromagnetic_hdr(char* buf,
 										   	CommonSEGD::GeneralHeaderEle* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
@@ -632,7 +632,7 @@ void OSEGD::Impl::write_electromagnetic_hdr(char* buf,
 void OSEGD::Impl::write_other_source_hdr(char* buf,
 										 CommonSEGD::GeneralHeaderOth* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
+    write_u24(&buf, hdr->expanded_file_number);
     uint32_t integer = hdr->sou_line_num;
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
-- 
2.43.0


From dc9eb6e259743806ae6e5e3dc56792b3666cae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 68/77] fix: write negative source lines and points of SEG-D
 source blocks

---
 src/OSEGD.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index c385e7b..c8cbd9c 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -496,11 +496,11 @@ void OSEGD::Impl::write_vibrator_hdr(char* buf,
 									 CommonSEGD::GeneralHeaderVib* hdr)
 {
     write_u24(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -524,11 +524,11 @@ void OSEGD::Impl::write_explosive_hdr(char* buf,
 									  CommonSEGD::GeneralHeaderExp* hdr)
 {
     write_u24(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -552,11 +552,11 @@ void OSEGD::Impl::write_airgun_hdr(char* buf,
 								   CommonSEGD::GeneralHeaderAir* hdr)
 {
     write_u24(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -579,11 +579,11 @@ void OSEGD::Impl::write_watergun_hdr(char* buf,
 									 CommonSEGD::GeneralHeaderWat* hdr)
 {
     write_u24(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -606,11 +606,11 @@ void OSEGD::Impl::write_electromagnetic_hdr(char* buf,
 										   	CommonSEGD::GeneralHeaderEle* hdr)
 {
     write_u24(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -633,11 +633,11 @@ void OSEGD::Impl::write_other_source_hdr(char* buf,
 										 CommonSEGD::GeneralHeaderOth* hdr)
 {
     write_u24(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-- 
2.43.0


From 2a731ae1a6f264f18530576f09c19af00dc96399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 69/77] fix: write offsets and size of SEG-D source blocks in
 two bytes

---
 src/OSEGD.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index c8cbd9c..4023270 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -513,10 +513,10 @@ void OSEGD::Impl::write_vibrator_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
@@ -541,10 +541,10 @@ void OSEGD::Impl::write_explosive_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
@@ -568,10 +568,10 @@ void OSEGD::Impl::write_airgun_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
@@ -595,10 +595,10 @@ void OSEGD::Impl::write_watergun_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
@@ -622,10 +622,10 @@ void OSEGD::Impl::write_electromagnetic_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
@@ -648,10 +648,10 @@ void OSEGD::Impl::write_other_source_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
-- 
2.43.0


From f7563b58baf5f0f15ebc20aa5039d34018b6daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:25 +0000
Subject: [PATCH 70/77] fix: write SEG-D revision 3 channel sets as they are
 read

---
 src/OSEGD.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4023270..4c86d98 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -867,12 +867,12 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         *buf++ = hdr.array_forming;
     } else {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        write_u16(&buf, hdr.channel_set_start_time);
+        write_u16(&buf, hdr.channel_set_number);
         *buf++ = hdr.channel_type;
         write_u32(&buf, hdr.channel_set_start_time);
         write_u32(&buf, hdr.channel_set_end_time);
         write_u32(&buf, *hdr.number_of_samples());
-        write_u32(&buf, hdr.descale_multiplier);
+        write_IEEE_float(&buf, hdr.descale_multiplier);
         write_u24(&buf, hdr.number_of_channels);
         write_u24(&buf, *hdr.samp_int());
         *buf++ = hdr.array_forming;
@@ -883,8 +883,8 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         *buf++ = hdr.streamer_no;
         ++buf;
         write_u32(&buf, hdr.alias_filter_freq);
-        write_u32(&buf, hdr.alias_filter_slope);
         write_u32(&buf, hdr.low_cut_filter_freq);
+        write_u32(&buf, hdr.alias_filter_slope);
         write_u32(&buf, hdr.low_cut_filter_slope);
         write_u32(&buf, hdr.first_notch_filter);
         write_u32(&buf, hdr.second_notch_filter);
-- 
2.43.0


From e09d71200ae0c91b839f3ed62890d1d332647567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:18 +0000
Subject: [PATCH 71/77] fix: write the re-shoot, group and depth indices of
 SEG-D revision 3 traces

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4c86d98..daa24f0 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1028,7 +1028,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             write_u24(&buf, r_point);
             tmp = hdr.get("R_POINT_IDX");
             *buf++ = tmp ? get<int64_t>(*tmp) : 0;
-            if (common.general_header2.segd_rev_major > 1) {
+            if (common.general_header2.segd_rev_major < 3) {
                 tmp = hdr.get("SAMP_NUM");
                 write_u24(&buf, tmp ? get<int64_t>(*tmp) : 0);
             } else {
-- 
2.43.0


From 83ad1f64f646640f749613c24aa53c9d0ec79bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 72/77] fix: write the extended trace number of SEG-D revision
 3 where it is read

---
 src/OSEGD.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index daa24f0..59cf7fb 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1068,9 +1068,9 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
             if (common.general_header2.segd_rev_major > 2) {
-                tmp = hdr.get("TRACE_NUMBER");
-                if (tmp && get<int64_t>(*tmp) > 9999)
-                    write_u24(&buf, get<int64_t>(*tmp));
+                tmp = hdr.get("CHAN");
+                write_u24(&buf, tmp && get<int64_t>(*tmp) > 9999 ?
+                          get<int64_t>(*tmp) : 0);
                 tmp = hdr.get("SAMP_NUM");
                 write_u32(&buf, tmp ? get<int64_t>(*tmp) : 0);
                 tmp = hdr.get("SENSOR_MOVING");
-- 
2.43.0


From 0b5b4bf25895c1014d0cc6c35842a6f227b67596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:54 +0000
Subject: [PATCH 73/77] fix: read SEG-Y traces of more than 2 GiB

---
 src/ISEGY.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 8b686ba..f19195b 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -115,7 +115,7 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
     common.file.seekg(first_trace_pos);
     curr_pos = first_trace_pos;
     common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
-        common.samp_per_tr * common.bytes_per_sample));
+        common.samp_per_tr) * common.bytes_per_sample);
 	if (common.binary_header.fixed_tr_length ||
 		common.binary_header.SEGY_rev_major_ver == 0)
 		read_trc_smpls =
@@ -401,7 +401,8 @@ void ISEGY::Impl::read_trailer_stanzas()
 									  ios_base::cur);
                 }
                 // skip trace samples
-                common.file.seekg(trc_samp_num * common.bytes_per_sample,
+                common.file.seekg(static_cast<streamoff>(trc_samp_num) *
+								  common.bytes_per_sample,
 								  ios_base::cur);
             }
             end_of_data = common.file.tellg();
@@ -523,7 +524,8 @@ Trace::Header ISEGY::read_header()
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
     if (pimpl->common.binary_header.fixed_tr_length ||
 	   	pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
-        pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
+        pimpl->file_skip_bytes(static_cast<streamoff>(
+								   pimpl->common.samp_per_tr) *
 							   pimpl->common.bytes_per_sample);
     } else {
         Trace::Header::Value v = hdr["SAMP_NUM"];
-- 
2.43.0


From 8f6393b30c4b8670ca5479e750b89a51a89715b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:59 +0000
Subject: [PATCH 74/77] fix: sample counts of variable length traces are
 unsigned

---
 src/CommonSEGY.cpp | 2 +-
 src/ISEGY.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index 169c7c6..d90b633 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -143,7 +143,7 @@ CommonSEGY::default_trace_header = {
 	{108, {"DELAY_TIME", Trace::Header::ValueType::int16_t}},
 	{110, {"MUTE_START", Trace::Header::ValueType::int16_t}},
 	{112, {"MUTE_END", Trace::Header::ValueType::int16_t}},
-	{114, {"SAMP_NUM", Trace::Header::ValueType::int16_t}},
+	{114, {"SAMP_NUM", Trace::Header::ValueType::uint16_t}},
 	{116, {"SAMP_INT", Trace::Header::ValueType::int16_t}},
 	{118, {"GAIN_TYPE", Trace::Header::ValueType::int16_t}},
 	{120, {"GAIN_CONST", Trace::Header::ValueType::int16_t}},
diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index f19195b..c3f94de 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -384,7 +384,7 @@ void ISEGY::Impl::read_trailer_stanzas()
                 common.file.read(trc_hdr_buf, CommonSEGY::TR_HEADER_SIZE);
                 // get number of samples from main header
                 char const* ptr = trc_hdr_buf + 114;
-                uint32_t trc_samp_num = read_i16(&ptr);
+                uint32_t trc_samp_num = read_u16(&ptr);
                 if (common.binary_header.max_num_add_tr_headers) {
                     // if there are additional header(s)
                     // get number of samples from first additional header
-- 
2.43.0


From b8fde73885b870b4426eb22e18bd318a27885241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:48 +0000
Subject: [PATCH 75/77] fix: a refused SEG-Y trace left its header in the file

---
 include/OSEGY.hpp |  2 ++
 src/OSEGY.cpp     | 28 ++++++++++++++++++++++++++++
 src/OSEGYRev0.cpp |  2 ++
 src/OSEGYRev1.cpp |  3 +++
 src/OSEGYRev2.cpp |  8 ++++++++
 5 files changed, 43 insertions(+)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index b2b3413..ddff0df 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -59,6 +59,8 @@ protected:
     void write_bin_header();
     void write_ext_text_headers();
     void write_trailer_stanzas();
+    void check_samples_fix(Trace const& t);
+    void check_samples_var(Trace const& t);
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
     void write_trace_samples_fix(Trace const& t);
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index c7452e8..8e53906 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -37,6 +37,8 @@ public:
     void write_bin_header();
     void write_ext_text_headers();
     void write_trailer_stanzas();
+    void check_samples_fix(Trace const& t);
+    void check_samples_var(Trace const& t);
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
     void write_trace_samples_fix(Trace const& t);
@@ -461,6 +463,24 @@ void OSEGY::Impl::write_trailer_stanzas()
 						  CommonSEGY::TEXT_HEADER_SIZE);
 }
 
+// before anything of the trace is written
+void OSEGY::Impl::check_samples_fix(Trace const& t)
+{
+    if (t.samples().size() * common.bytes_per_sample != common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__,
+						"number of samples in trace differs from "
+						"declared number");
+}
+
+void OSEGY::Impl::check_samples_var(Trace const& t)
+{
+    Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
+    if (static_cast<size_t>(get<int64_t>(v)) != t.samples().size())
+        throw Exception(__FILE__, __LINE__,
+						"number of samples in trace differs from "
+						"declared number");
+}
+
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
     Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
@@ -499,6 +519,14 @@ void OSEGY::assign_bytes_per_sample() { pimpl->assign_bytes_per_sample(); }
 void OSEGY::write_bin_header() { pimpl->write_bin_header(); }
 void OSEGY::write_ext_text_headers() { pimpl->write_ext_text_headers(); }
 void OSEGY::write_trailer_stanzas() { pimpl->write_trailer_stanzas(); }
+void OSEGY::check_samples_fix(Trace const& t)
+{
+    pimpl->check_samples_fix(t);
+}
+void OSEGY::check_samples_var(Trace const& t)
+{
+    pimpl->check_samples_var(t);
+}
 void OSEGY::write_trace_header(Trace::Header const& hdr)
 {
     pimpl->write_trace_header(hdr);
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index bfe0ebc..f1dc59e 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -64,6 +64,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 				sgy.common().binary_header.samp_per_tr) *
 			sgy.common().bytes_per_sample);
         write_trace = [this](Trace& tr) {
+            sgy.check_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
@@ -95,6 +96,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 											 sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
             }
+            sgy.check_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 3bfd1ea..b8ebac1 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -69,11 +69,13 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 					sgy.common().binary_header.samp_per_tr) *
 			   	sgy.common().bytes_per_sample);
             write_trace = [this](Trace& tr) {
+                sgy.check_samples_fix(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
             };
         } else {
             write_trace = [this](Trace& tr) {
+                sgy.check_samples_var(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_var(tr);
             };
@@ -111,6 +113,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				sgy.write_bin_header();
 				sgy.common().file.seekg(first_trace_pos);
 			}
+			sgy.check_samples_var(tr);
 			sgy.write_trace_header(tr.header());
 			sgy.write_trace_samples_var(tr);
         };
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 402158b..8265d64 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -89,24 +89,28 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 			   	sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
         } else {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
@@ -116,6 +120,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
@@ -123,6 +128,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             else
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
@@ -130,6 +136,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
@@ -137,6 +144,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             else
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
-- 
2.43.0


From 944705a78a200def021536cd8de31567523f30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:58 +0000
Subject: [PATCH 76/77] fix: refuse SEG-Y traces whose number of samples the
 header can not hold

---
 src/OSEGY.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 8e53906..46abf04 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -463,6 +463,30 @@ void OSEGY::Impl::write_trailer_stanzas()
 						  CommonSEGY::TEXT_HEADER_SIZE);
 }
 
+static uint64_t max_value(Trace::Header::ValueType type)
+{
+    switch (type) {
+    case Trace::Header::ValueType::int8_t:
+        return INT8_MAX;
+    case Trace::Header::ValueType::uint8_t:
+        return UINT8_MAX;
+    case Trace::Header::ValueType::int16_t:
+        return INT16_MAX;
+    case Trace::Header::ValueType::uint16_t:
+        return UINT16_MAX;
+    case Trace::Header::ValueType::int24_t:
+        return 0x7fffff;
+    case Trace::Header::ValueType::uint24_t:
+        return 0xffffff;
+    case Trace::Header::ValueType::int32_t:
+        return INT32_MAX;
+    case Trace::Header::ValueType::uint32_t:
+        return UINT32_MAX;
+    default:
+        return UINT64_MAX;
+    }
+}
+
 // before anything of the trace is written
 void OSEGY::Impl::check_samples_fix(Trace const& t)
 {
@@ -479,6 +503,17 @@ void OSEGY::Impl::check_samples_var(Trace const& t)
         throw Exception(__FILE__, __LINE__,
 						"number of samples in trace differs from "
 						"declared number");
+    // a later header takes precedence
+    uint64_t limit = UINT64_MAX;
+    for (size_t i = 0; i < common.tr_hdr_map.size() && i <=
+         static_cast<size_t>(common.binary_header.max_num_add_tr_headers);
+         ++i)
+        for (auto& p : common.tr_hdr_map[i].second)
+            if (p.second.first == "SAMP_NUM")
+                limit = max_value(p.second.second);
+    if (t.samples().size() > limit)
+        throw Exception(__FILE__, __LINE__,
+						"number of samples does not fit the trace header");
 }
 
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
-- 
2.43.0


From d4a2e635cc70d94b4c9b62bfe852f67951631575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 77/77] fix: a refused SEG-D trace left its header in the file

---
 src/OSEGD.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 59cf7fb..2a90e34 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -35,6 +35,7 @@ public:
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
     void write_trace_header(Trace::Header const& hdr);
+    vector<char> ext_trace_headers(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
     Impl(CommonSEGD com)
@@ -941,11 +942,14 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
     write_u16(&buf, ch_set < 100 ? 0 : ch_set);
     write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
+    // nothing of the trace is written if its extensions can not be
+    ext_trace_headers(hdr);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
 
-void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
+vector<char> OSEGD::Impl::ext_trace_headers(Trace::Header const& hdr)
 {
+    vector<char> result;
     uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
@@ -1080,9 +1084,16 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_ext_hdr_buf,
-            CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        result.insert(result.end(), common.trc_ext_hdr_buf,
+            common.trc_ext_hdr_buf + CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
+    return result;
+}
+
+void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
+{
+    vector<char> blocks = ext_trace_headers(hdr);
+    common.file.write(blocks.data(), blocks.size());
 }
 
 void OSEGD::Impl::write_trace_samples(Trace const& trc)
-- 
2.43.0

