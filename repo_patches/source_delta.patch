From dbee8b811ed617bd5a7d1c480733910dedee2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:02 +0000
Subject: [PATCH 01/76] fix: copying an Exception dereferenced a null pointer

---
 src/Exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Exception.cpp b/src/Exception.cpp
index 69d4fcb..50a0afd 100644
--- a/src/Exception.cpp
+++ b/src/Exception.cpp
@@ -42,8 +42,8 @@ char const* Exception::what() const noexcept
     return pimpl->d_message.c_str();
 }
 Exception::Exception(Exception const& e)
+    : pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl->d_message = e.pimpl->d_message;
 }
 Exception::Exception(Exception&& e)
 {
-- 
2.43.0


From 41098b6a1430693197e4bfebb62a157cc86c9800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:02 +0000
Subject: [PATCH 02/76] fix: the first field of a trace header map was not
 checked against the 240 byte limit

---
 src/CommonSEGY.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index bc8d6c4..98ad931 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -81,6 +81,9 @@ void check_tr_hdr_map(CommonSEGY* com)
 									"impossible, unexpected type in "
 									"TrHdrValueType");
 			}
+			if (i.first >= 240 || i.first + size > 240)
+				throw Exception(__FILE__, __LINE__,
+					string("trace header has only 240 bytes"));
 			if (first) {
                 prev = i.first;
 				prev_size = size;
@@ -91,9 +94,6 @@ void check_tr_hdr_map(CommonSEGY* com)
 									string("overlapping type/offset in "
                                     "trace headers map: ") +
 								   	to_string(i.first));
-                if (i.first + size > 240)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header has only 240 bytes"));
                 prev = i.first;
 				prev_size = size;
             }
-- 
2.43.0


From 24792e70aebcd358cde436fa180b3c84c4c33fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 03/76] fix: one additional trace header too few was written

---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f17082a..4caa515 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -354,7 +354,7 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i < common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From 68fe0355c46170df9292e71dcd22241c3d54adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 04/76] fix: writing a trace with an empty list of header maps
 read out of bounds

---
 src/OSEGY.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 4caa515..dc95192 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -290,6 +290,10 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 {
     std::memset(common.hdr_buf, 0, CommonSEGY::TR_HEADER_SIZE);
     optional<Trace::Header::Value> tmp;
+	if (common.tr_hdr_map.empty()) {
+		common.file.write(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
+		return;
+	}
 	for (auto& p : common.tr_hdr_map[0].second) {
 		char* pos = common.hdr_buf + p.first;
 		switch (p.second.second) {
-- 
2.43.0


From 41286d98d0f285986387cbadd6f5b601a168dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 05/76] fix: trace header values held as floating point could
 not be written

---
 src/OSEGY.cpp | 70 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index dc95192..6f29cbc 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -12,6 +12,7 @@ using std::abs;
 using std::fstream;
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -23,6 +24,23 @@ using std::string;
 using std::vector;
 
 namespace sedaman {
+// header values can be held as integer or floating point regardless of
+// the type they should be written with
+static int64_t to_int(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return holds_alternative<int64_t>(*v) ? get<int64_t>(*v) :
+	   	static_cast<int64_t>(get<double>(*v));
+}
+
+static double to_dbl(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return holds_alternative<int64_t>(*v) ? get<int64_t>(*v) : get<double>(*v);
+}
+
 class OSEGY::Impl {
 public:
     Impl(CommonSEGY com)
@@ -299,55 +317,55 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
 				tmp = hdr.get(p.second.first);
-				write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i8(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint8_t:
 				tmp = hdr.get(p.second.first);
-				write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u8(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int16_t:
 				tmp = hdr.get(p.second.first);
-				write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i16(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint16_t:
 				tmp = hdr.get(p.second.first);
-				write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u16(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int24_t:
 				tmp = hdr.get(p.second.first);
-				write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i24(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint24_t:
 				tmp = hdr.get(p.second.first);
-				write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u24(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int32_t:
 				tmp = hdr.get(p.second.first);
-				write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i32(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint32_t:
 				tmp = hdr.get(p.second.first);
-				write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u32(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int64_t:
 				tmp = hdr.get(p.second.first);
-				write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i64(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint64_t:
 				tmp = hdr.get(p.second.first);
-				write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u64(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::ibm:
 				tmp = hdr.get(p.second.first);
-				write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_ibm_float(&pos, to_dbl(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_single:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_float(&pos, to_dbl(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_double:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_double(&pos, to_dbl(tmp));
 				break;
 		}
 	}
@@ -368,55 +386,55 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				switch (p.second.second) {
 					case Trace::Header::ValueType::int8_t:
 						tmp = hdr.get(p.second.first);
-						write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i8(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint8_t:
 						tmp = hdr.get(p.second.first);
-						write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u8(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int16_t:
 						tmp = hdr.get(p.second.first);
-						write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i16(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint16_t:
 						tmp = hdr.get(p.second.first);
-						write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u16(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int24_t:
 						tmp = hdr.get(p.second.first);
-						write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i24(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint24_t:
 						tmp = hdr.get(p.second.first);
-						write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u24(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int32_t:
 						tmp = hdr.get(p.second.first);
-						write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i32(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint32_t:
 						tmp = hdr.get(p.second.first);
-						write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u32(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int64_t:
 						tmp = hdr.get(p.second.first);
-						write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i64(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint64_t:
 						tmp = hdr.get(p.second.first);
-						write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u64(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::ibm:
 						tmp = hdr.get(p.second.first);
-						write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_ibm_float(&pos, to_dbl(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_single:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_float(&pos, to_dbl(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_double:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_double(&pos, to_dbl(tmp));
 						break;
 				}
 			}
-- 
2.43.0


From 1fcbc91cbc03b1317ea1770fbcc1c72421375913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 06/76] fix: the endianness marker was swapped in big endian
 files

---
 src/OSEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 6f29cbc..66fb5ca 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -289,7 +289,8 @@ void OSEGY::Impl::write_bin_header()
     write_IEEE_double(&ptr, common.binary_header.ext_samp_int_orig);
     write_i32(&ptr, common.binary_header.ext_samp_per_tr_orig);
     write_i32(&ptr, common.binary_header.ext_ens_fold);
-    write_i32(&ptr, common.binary_header.endianness);
+    // reader gets it without byte swapping
+    write<int32_t>(&ptr, common.binary_header.endianness);
     ptr += 200;
     write_u8(&ptr, common.binary_header.SEGY_rev_major_ver);
     write_u8(&ptr, common.binary_header.SEGY_rev_minor_ver);
-- 
2.43.0


From 72ade5dea98c61ad27796e8c4852f86846299085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:33 +0000
Subject: [PATCH 07/76] fix: default text header of revision 0 was 3220 bytes
 long with control characters

---
 src/OSEGYRev0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 76739c0..708419c 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -38,7 +38,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         auto pos = txt_hdr.find(to_replace);
         // there are no revision field in text header in revision 0
         txt_hdr.replace(pos, to_replace.size(),
-					   	string(' ', to_replace.size()));
+					   	string(to_replace.size(), ' '));
         CommonSEGY::ascii_to_ebcdic(txt_hdr);
     } else if (txt_hdr.size() != CommonSEGY::TEXT_HEADER_SIZE) {
         throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From 0e75569981fc48772fc9f57e196371818d7f3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 08/76] fix: powers of 16 and tiny values were written as wrong
 IBM floats

---
 src/OSEGY.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 66fb5ca..762e176 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -165,11 +165,15 @@ void OSEGY::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
-        uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
+        // exact exponent, logarithm is not precise near powers of 16
+        int exp2;
+        frexp(abs_val, &exp2);
+        int exp = (exp2 + 3) >> 2;
+        if (exp < -64 || abs_val == 0)
+            exp = -64;
+        uint32_t fraction = ldexp(abs_val, 24 - 4 * exp);
+        uint32_t result = sign << 31 | static_cast<uint32_t>(exp + 64) << 24 |
+		   	(fraction & 0x00ffffff);
         write_u32(buf, result);
     };
 }
-- 
2.43.0


From 50f444c2393059e60d1e792246ec9c7febe80006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 09/76] fix: trailer stanzas were looked for behind the end of
 file

---
 src/ISEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c30c355..313eea9 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -406,7 +406,8 @@ void ISEGY::Impl::read_trailer_stanzas()
         }
     } else {
         // go to first trailer stanza
-        common.file.seekg(common.binary_header.num_of_trailer_stanza *
+        common.file.seekg(-static_cast<streamoff>
+						  (common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
-- 
2.43.0


From 118e3c187518cb8a867dccf7432f5ed965294ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 10/76] fix: trace headers were not skipped on the way to
 trailer stanzas

---
 src/ISEGY.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 313eea9..cd7759b 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -352,8 +352,12 @@ void ISEGY::Impl::read_trailer_stanzas()
             throw(Exception(__FILE__, __LINE__,
 						   	"unable to determine end of trace data"));
         if (common.binary_header.fixed_tr_length) {
-            // skip all traces
-            common.file.seekg(common.bytes_per_sample * common.samp_per_tr *
+            // skip all traces with their headers
+            common.file.seekg(((common.binary_header.max_num_add_tr_headers +
+							   	static_cast<streamoff>(1)) *
+							   CommonSEGY::TR_HEADER_SIZE +
+							   static_cast<streamoff>(common.bytes_per_sample)
+							   * common.samp_per_tr) *
 							  common.binary_header.num_of_tr_in_file,
 							  ios_base::cur);
             end_of_data = common.file.tellg();
-- 
2.43.0


From 20b7bcb59ff15a1b41fc5d072c017854bbf867f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 11/76] fix: trace length in bytes overflowed int

---
 src/ISEGY.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index cd7759b..414bebb 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -115,7 +115,7 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
     common.file.seekg(first_trace_pos);
     curr_pos = first_trace_pos;
     common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
-        common.samp_per_tr * common.bytes_per_sample));
+        common.samp_per_tr) * common.bytes_per_sample);
 	if (common.binary_header.fixed_tr_length ||
 		common.binary_header.SEGY_rev_major_ver == 0)
 		read_trc_smpls =
@@ -394,8 +394,8 @@ void ISEGY::Impl::read_trailer_stanzas()
 									  ios_base::cur);
                 }
                 // skip trace samples
-                common.file.seekg(trc_samp_num * common.bytes_per_sample,
-								  ios_base::cur);
+                common.file.seekg(static_cast<streamoff>(trc_samp_num) *
+								  common.bytes_per_sample, ios_base::cur);
             }
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
@@ -516,7 +516,8 @@ Trace::Header ISEGY::read_header()
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
     if (pimpl->common.binary_header.fixed_tr_length ||
 	   	pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
-        pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
+        pimpl->file_skip_bytes(static_cast<streamoff>
+							   (pimpl->common.samp_per_tr) *
 							   pimpl->common.bytes_per_sample);
     } else {
         Trace::Header::Value v = hdr["SAMP_NUM"];
-- 
2.43.0


From c627185a7fc1b4c60e60bc04b57e600405f024c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 12/76] fix: missing or negative number of samples in trace
 header made reading go backwards

---
 src/ISEGY.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 414bebb..9d24091 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -57,6 +57,8 @@ public:
     vector<double> read_trc_smpls_fix();
     vector<double> read_trc_smpls_var(unordered_map<string,
 									  Trace::Header::Value>& hdr);
+    int64_t trc_samp_num(unordered_map<string,
+						 Trace::Header::Value> const& hdr);
     void file_skip_bytes(streamoff off);
     vector<map<uint32_t, pair<string, Trace::Header::ValueType>>>
 	   	tr_hdr_default_io_map();
@@ -511,6 +513,16 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
     return hdr;
 }
 
+int64_t ISEGY::Impl::trc_samp_num(unordered_map<string,
+								  Trace::Header::Value> const& hdr)
+{
+    auto it = hdr.find("SAMP_NUM");
+    if (it == hdr.end() || get<int64_t>(it->second) < 0)
+        throw Exception(__FILE__, __LINE__,
+					   	"unable to determine number of samples in trace");
+    return get<int64_t>(it->second);
+}
+
 Trace::Header ISEGY::read_header()
 {
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
@@ -520,9 +532,8 @@ Trace::Header ISEGY::read_header()
 							   (pimpl->common.samp_per_tr) *
 							   pimpl->common.bytes_per_sample);
     } else {
-        Trace::Header::Value v = hdr["SAMP_NUM"];
-        uint64_t samp_num = get<int64_t>(v);
-        pimpl->file_skip_bytes(samp_num * pimpl->common.bytes_per_sample);
+        pimpl->file_skip_bytes(pimpl->trc_samp_num(hdr) *
+							   pimpl->common.bytes_per_sample);
     }
     return Trace::Header(hdr);
 }
@@ -540,8 +551,7 @@ vector<double> ISEGY::Impl::read_trc_smpls_fix()
 vector<double> ISEGY::Impl::read_trc_smpls_var(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
-    Trace::Header::Value v = hdr["SAMP_NUM"];
-    size_t samp_num = get<int64_t>(v);
+    size_t samp_num = trc_samp_num(hdr);
     if (common.samp_buf.size() != samp_num * common.bytes_per_sample)
         common.samp_buf.resize(samp_num * common.bytes_per_sample);
     return read_trc_smpls_fix();
-- 
2.43.0


From b9cd82f097820d30c9b78c5345169ea19d74dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 13/76] fix: reading never ended with negative number of
 additional trace headers

---
 src/ISEGY.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 9d24091..ce9c1ea 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -96,6 +96,10 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
     char bin_buf[CommonSEGY::BIN_HEADER_SIZE];
     common.file.read(bin_buf, CommonSEGY::BIN_HEADER_SIZE);
 	fill_bin_header(bin_buf, override_bin_hdr);
+	if (common.binary_header.max_num_add_tr_headers < 0 ||
+		common.binary_header.max_num_add_tr_headers == INT32_MAX)
+		throw Exception(__FILE__, __LINE__,
+						"wrong number of additional trace headers");
     assign_sample_reader();
     assign_bytes_per_sample();
     read_ext_text_headers();
-- 
2.43.0


From 07a51bc1bbafa956581a02411ce13e4a0bc55329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 14/76] fix: sorted reading of a file without traces
 dereferenced end iterator

---
 src/ISEGYSorted1D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index eca66b6..1176829 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -34,9 +34,10 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     }
     map_cur = trc_map.begin();
     map_end = trc_map.end();
+    if (map_cur == map_end)
+        return;
     vec_cur = map_cur->second.begin();
     vec_end = map_cur->second.end();
-    Trace::Header::Value key = map_cur->first;
 }
 
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
-- 
2.43.0


From 13ddadd82e403bcc0f830192755b263b079ddcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 15/76] fix: huge number of samples in trace header overflowed
 trace length in bytes

---
 src/ISEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index ce9c1ea..f27d604 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -521,7 +521,8 @@ int64_t ISEGY::Impl::trc_samp_num(unordered_map<string,
 								  Trace::Header::Value> const& hdr)
 {
     auto it = hdr.find("SAMP_NUM");
-    if (it == hdr.end() || get<int64_t>(it->second) < 0)
+    if (it == hdr.end() || get<int64_t>(it->second) < 0 ||
+        get<int64_t>(it->second) > INT64_MAX / common.bytes_per_sample)
         throw Exception(__FILE__, __LINE__,
 					   	"unable to determine number of samples in trace");
     return get<int64_t>(it->second);
-- 
2.43.0


From 381f308fa0a3c25bc49d62fb9fc31975d42c17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 16/76] fix: binary headers were compared with their padding
 bytes

---
 include/CommonSEGY.hpp | 1 +
 src/OSEGYRev0.cpp      | 4 +---
 src/OSEGYRev1.cpp      | 4 +---
 src/OSEGYRev2.cpp      | 4 +---
 4 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/CommonSEGY.hpp b/include/CommonSEGY.hpp
index 587220f..a9001b9 100644
--- a/include/CommonSEGY.hpp
+++ b/include/CommonSEGY.hpp
@@ -138,6 +138,7 @@ public:
             NUM_OF_TRAILER_STANZA
         };
         static char const* name_as_string(Name n);
+        bool operator==(BinaryHeader const&) const = default;
     } binary_header;
     ///
     /// \brief Transform text header from ebcdic to ascii.
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 708419c..9fd3a2b 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::holds_alternative;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::pair;
 using std::streampos;
@@ -55,8 +54,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 1;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         sgy.common().samp_buf.resize(static_cast<uint16_t>(
 				sgy.common().binary_header.samp_per_tr) *
 			sgy.common().bytes_per_sample);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f80741e..80f869a 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::holds_alternative;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::pair;
 using std::streampos;
@@ -57,8 +56,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(static_cast<uint16_t>(
 					sgy.common().binary_header.samp_per_tr) *
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 610931f..7b16d52 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -10,7 +10,6 @@ using std::get;
 using std::ios_base;
 using std::make_unique;
 using std::map;
-using std::memcmp;
 using std::move;
 using std::optional;
 using std::pair;
@@ -64,8 +63,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
-    if (memcmp(&sgy.common().binary_header, &zero,
-			   sizeof(CommonSEGY::BinaryHeader))) {
+    if (sgy.common().binary_header != zero) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(static_cast<uint16_t>(
 					sgy.common().binary_header.samp_per_tr) *
-- 
2.43.0


From d63c6c03b245c2c0cfca44d749c9af2a20c6d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 17/76] fix: number of extended text headers was not written
 and first trace overwrote them

---
 src/OSEGYRev1.cpp | 10 +++++++---
 src/OSEGYRev2.cpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 80f869a..dd62c81 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -48,15 +48,18 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    CommonSEGY::BinaryHeader zero = {};
+	zero.format_code = 5;
+    bool default_bin_hdr = sgy.common().binary_header == zero;
+    sgy.common().binary_header.ext_text_headers_num =
+	   	sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
-    CommonSEGY::BinaryHeader zero = {};
-	zero.format_code = 5;
-    if (sgy.common().binary_header != zero) {
+    if (!default_bin_hdr) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(static_cast<uint16_t>(
 					sgy.common().binary_header.samp_per_tr) *
@@ -102,6 +105,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				sgy.common().samp_buf.resize
 					(samp_num * sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
+				sgy.common().file.seekp(first_trace_pos);
 			}
 			sgy.write_trace_header(tr.header());
 			sgy.write_trace_samples_var(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 7b16d52..18eafdd 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -55,15 +55,18 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    CommonSEGY::BinaryHeader zero = {};
+	zero.format_code = 5;
+    bool default_bin_hdr = sgy.common().binary_header == zero;
+    sgy.common().binary_header.ext_text_headers_num =
+	   	sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
     sgy.assign_sample_writer();
     sgy.assign_bytes_per_sample();
-    CommonSEGY::BinaryHeader zero = {};
-	zero.format_code = 5;
-    if (sgy.common().binary_header != zero) {
+    if (!default_bin_hdr) {
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.common().samp_buf.resize(static_cast<uint16_t>(
 					sgy.common().binary_header.samp_per_tr) *
@@ -146,6 +149,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
             sgy.common().binary_header.samp_int = samp_int;
         sgy.common().samp_buf.resize(samp_num * sgy.common().bytes_per_sample);
 		sgy.write_bin_header();
+		sgy.common().file.seekp(first_trace_pos);
     }
 }
 
-- 
2.43.0


From 4d2ac87801fdfd01d82c8606523e73cb7041415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 18/76] fix: variable length traces were written to files
 declared as revision 0

---
 src/OSEGYRev1.cpp | 3 +++
 src/OSEGYRev2.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index dd62c81..7a66505 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -51,6 +51,9 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
     bool default_bin_hdr = sgy.common().binary_header == zero;
+    // traces have variable length only if revision is not 0
+    if (default_bin_hdr)
+        sgy.common().binary_header.SEGY_rev_major_ver = 1;
     sgy.common().binary_header.ext_text_headers_num =
 	   	sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 18eafdd..2aae7e2 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -58,6 +58,9 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
     bool default_bin_hdr = sgy.common().binary_header == zero;
+    // traces have variable length only if revision is not 0
+    if (default_bin_hdr)
+        sgy.common().binary_header.SEGY_rev_major_ver = 2;
     sgy.common().binary_header.ext_text_headers_num =
 	   	sgy.common().text_headers.size() - 1;
     sgy.assign_raw_writers();
-- 
2.43.0


From bc1ea233a195d9641924698cf6368eb23e05f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 19/76] fix: number of trailer stanzas was not written to
 binary header

---
 src/OSEGYRev2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 2aae7e2..883e830 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -63,6 +63,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
         sgy.common().binary_header.SEGY_rev_major_ver = 2;
     sgy.common().binary_header.ext_text_headers_num =
 	   	sgy.common().text_headers.size() - 1;
+    sgy.common().binary_header.num_of_trailer_stanza =
+	   	sgy.common().trailer_stanzas.size();
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
-- 
2.43.0


From cfa912e5e0dc56b468bf4b06e43f3bf157284a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 20/76] fix: extended number of samples was ignored by fixed
 length writers

---
 include/OSEGY.hpp |  1 +
 src/OSEGY.cpp     | 12 ++++++++++++
 src/OSEGYRev0.cpp |  4 +---
 src/OSEGYRev1.cpp |  4 +---
 src/OSEGYRev2.cpp |  4 +---
 5 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index b2b3413..237d015 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -56,6 +56,7 @@ protected:
     void assign_raw_writers();
     void assign_sample_writer();
     void assign_bytes_per_sample();
+    void resize_samp_buf();
     void write_bin_header();
     void write_ext_text_headers();
     void write_trailer_stanzas();
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 762e176..f7e90d6 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -51,6 +51,7 @@ public:
     void assign_raw_writers();
     void assign_sample_writer();
     void assign_bytes_per_sample();
+    void resize_samp_buf();
     void write_bin_header();
     void write_ext_text_headers();
     void write_trailer_stanzas();
@@ -208,6 +209,16 @@ void OSEGY::Impl::assign_bytes_per_sample()
     }
 }
 
+void OSEGY::Impl::resize_samp_buf()
+{
+    // the same choice of number of samples as in reader
+    common.samp_per_tr = common.binary_header.ext_samp_per_tr ?
+	   	common.binary_header.ext_samp_per_tr :
+	   	static_cast<uint16_t>(common.binary_header.samp_per_tr);
+    common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
+        common.samp_per_tr) * common.bytes_per_sample);
+}
+
 void OSEGY::Impl::assign_sample_writer()
 {
     switch (common.binary_header.format_code) {
@@ -497,6 +508,7 @@ CommonSEGY& OSEGY::common() { return pimpl->common; }
 void OSEGY::assign_raw_writers() { pimpl->assign_raw_writers(); }
 void OSEGY::assign_sample_writer() { pimpl->assign_sample_writer(); }
 void OSEGY::assign_bytes_per_sample() { pimpl->assign_bytes_per_sample(); }
+void OSEGY::resize_samp_buf() { pimpl->resize_samp_buf(); }
 void OSEGY::write_bin_header() { pimpl->write_bin_header(); }
 void OSEGY::write_ext_text_headers() { pimpl->write_ext_text_headers(); }
 void OSEGY::write_trailer_stanzas() { pimpl->write_trailer_stanzas(); }
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 9fd3a2b..de53901 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -55,9 +55,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 1;
     if (sgy.common().binary_header != zero) {
-        sgy.common().samp_buf.resize(static_cast<uint16_t>(
-				sgy.common().binary_header.samp_per_tr) *
-			sgy.common().bytes_per_sample);
+        sgy.resize_samp_buf();
         write_trace = [this](Trace& tr) {
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 7a66505..81cbc01 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -64,9 +64,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     if (!default_bin_hdr) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
-			   	sgy.common().bytes_per_sample);
+            sgy.resize_samp_buf();
             write_trace = [this](Trace& tr) {
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 883e830..09eb50f 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -73,9 +73,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     if (!default_bin_hdr) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
-			   	sgy.common().bytes_per_sample);
+            sgy.resize_samp_buf();
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     sgy.write_trace_header(tr.header());
-- 
2.43.0


From 0295f2b39e989e15fdbe802c00b58ccb1f57f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:33 +0000
Subject: [PATCH 21/76] fix: first trace without sample number or interval was
 dereferenced or stored wrapped

---
 src/OSEGYRev0.cpp | 13 +++++++++----
 src/OSEGYRev1.cpp | 13 +++++++++----
 src/OSEGYRev2.cpp | 20 +++++++++++++++-----
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index de53901..abbf91d 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -64,21 +64,26 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
-                Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+                auto opt_num = tr.header().get("SAMP_NUM");
+                auto opt_int = tr.header().get("SAMP_INT");
+                if (!opt_num || !opt_int)
+                    throw Exception(__FILE__, __LINE__,
+                        "no number of samples or sample interval in trace header");
+                Trace::Header::Value v = *opt_num;
                 int64_t samp_num = get<int64_t>(v);
-                if (samp_num > INT16_MAX)
+                if (samp_num < 0 || samp_num > INT16_MAX)
                     throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much for "
 									"revision 0");
                 else
                     sgy.common().binary_header.samp_per_tr = samp_num;
-                v = *tr.header().get("SAMP_INT");
+                v = *opt_int;
                 double samp_int;
                 if (holds_alternative<int64_t>(v))
                     samp_int = get<int64_t>(v);
                 else
                     samp_int = get<double>(v);
-                if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
+                if (samp_int > INT16_MAX || samp_int < INT16_MIN || !static_cast<int16_t>(samp_int))
                     throw Exception(__FILE__, __LINE__,
 									"the sample interval can not be "
 									"written to rev0");
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 81cbc01..0374c38 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -82,21 +82,26 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
-				Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+				auto opt_num = tr.header().get("SAMP_NUM");
+				auto opt_int = tr.header().get("SAMP_INT");
+				if (!opt_num || !opt_int)
+				    throw Exception(__FILE__, __LINE__,
+				        "no number of samples or sample interval in trace header");
+				Trace::Header::Value v = *opt_num;
 				int64_t samp_num = get<int64_t>(v);
-				if (samp_num > INT16_MAX)
+				if (samp_num < 0 || samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much "
 									"for revision 1");
 				else
 					sgy.common().binary_header.samp_per_tr = samp_num;
-				v = *tr.header().get("SAMP_INT");
+				v = *opt_int;
 				double samp_int;
 				if (holds_alternative<int64_t>(v))
 					samp_int = get<int64_t>(v);
 				else
 					samp_int = get<double>(v);
-				if (samp_int > INT16_MAX ||
+				if (samp_int > INT16_MAX || samp_int < INT16_MIN ||
 					!static_cast<int16_t>(samp_int))
 					throw Exception(__FILE__, __LINE__,
 									"the sample interval can not be "
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 09eb50f..55e03d8 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -7,6 +7,7 @@
 
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -135,17 +136,26 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
-        Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+        auto opt_num = tr.header().get("SAMP_NUM");
+        auto opt_int = tr.header().get("SAMP_INT");
+        if (!opt_num || !opt_int)
+            throw Exception(__FILE__, __LINE__,
+                "no number of samples or sample interval in trace header");
+        Trace::Header::Value v = *opt_num;
         int64_t samp_num = get<int64_t>(v);
-        if (samp_num > INT16_MAX)
+        if (samp_num < 0 || samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
 							"the number of samples is too much for "
 							"revision 0");
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
-        v = *tr.header().get("SAMP_INT");
-        double samp_int = get<int64_t>(v);
-        if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
+        v = *opt_int;
+        double samp_int;
+        if (holds_alternative<int64_t>(v))
+            samp_int = get<int64_t>(v);
+        else
+            samp_int = get<double>(v);
+        if (samp_int > INT16_MAX || samp_int < INT16_MIN || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
         else
-- 
2.43.0


From 7b2545a4725d2cab4f56ad5d9a53ef681839b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 22/76] fix: traces not fitting the file overflowed the buffer
 or left stale samples

---
 include/OSEGY.hpp |  2 ++
 src/OSEGY.cpp     | 77 +++++++++++++++++++++++++++++++++++++++++++++--
 src/OSEGYRev0.cpp |  2 ++
 src/OSEGYRev1.cpp |  3 ++
 src/OSEGYRev2.cpp |  8 +++++
 5 files changed, 90 insertions(+), 2 deletions(-)

diff --git a/include/OSEGY.hpp b/include/OSEGY.hpp
index 237d015..9361c01 100644
--- a/include/OSEGY.hpp
+++ b/include/OSEGY.hpp
@@ -62,6 +62,8 @@ protected:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void check_trace_samples_fix(Trace const& t);
+    void check_trace_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f7e90d6..6e53930 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -1,6 +1,7 @@
 #include "OSEGY.hpp"
 #include "Exception.hpp"
 #include "util.hpp"
+#include <algorithm>
 #include <cfloat>
 #include <climits>
 #include <cmath>
@@ -57,6 +58,8 @@ public:
     void write_trailer_stanzas();
     void write_trace_header(Trace::Header const& hdr);
     void write_additional_trace_headers(Trace::Header const& hdr);
+    void check_trace_samples_fix(Trace const& t);
+    void check_trace_samples_var(Trace const& t);
     void write_trace_samples_fix(Trace const& t);
     void write_trace_samples_var(Trace const& t);
 
@@ -477,10 +480,70 @@ void OSEGY::Impl::write_trailer_stanzas()
 						  CommonSEGY::TEXT_HEADER_SIZE);
 }
 
+void OSEGY::Impl::check_trace_samples_fix(Trace const& t)
+{
+    if (t.samples().size() * common.bytes_per_sample > common.samp_buf.size())
+        throw Exception(__FILE__, __LINE__, "too many samples in trace");
+}
+
+void OSEGY::Impl::check_trace_samples_var(Trace const& t)
+{
+    optional<Trace::Header::Value> v = t.header_const().get("SAMP_NUM");
+    if (!v)
+        throw Exception(__FILE__, __LINE__,
+					   	"no number of samples in trace header");
+    int64_t samp_num = to_int(v);
+    if (samp_num < 0 || static_cast<uint64_t>(samp_num) < t.samples().size())
+        throw Exception(__FILE__, __LINE__,
+					   	"number of samples in trace header is less then "
+					   	"number of samples in trace");
+    // maximum that can be read back, last header has priority
+    int64_t max = -1;
+    for (decltype(common.tr_hdr_map.size()) i = 0; i < common.tr_hdr_map.size()
+		 && i <= static_cast<uint32_t>(
+			 common.binary_header.max_num_add_tr_headers); ++i)
+        for (auto& p : common.tr_hdr_map[i].second)
+            if (p.second.first == "SAMP_NUM")
+                switch (p.second.second) {
+                case Trace::Header::ValueType::int8_t:
+                    max = INT8_MAX;
+                    break;
+                case Trace::Header::ValueType::uint8_t:
+                    max = UINT8_MAX;
+                    break;
+                case Trace::Header::ValueType::int16_t:
+                    max = INT16_MAX;
+                    break;
+                case Trace::Header::ValueType::uint16_t:
+                    max = UINT16_MAX;
+                    break;
+                case Trace::Header::ValueType::int24_t:
+                    max = 0x7fffff;
+                    break;
+                case Trace::Header::ValueType::uint24_t:
+                    max = 0xffffff;
+                    break;
+                case Trace::Header::ValueType::int32_t:
+                    max = INT32_MAX;
+                    break;
+                case Trace::Header::ValueType::uint32_t:
+                    max = UINT32_MAX;
+                    break;
+                case Trace::Header::ValueType::int64_t:
+                case Trace::Header::ValueType::uint64_t:
+                    max = INT64_MAX;
+                    break;
+                default:
+                    max = -1;
+                }
+    if (samp_num > max)
+        throw Exception(__FILE__, __LINE__,
+					   	"number of samples can not be stored in trace header");
+}
+
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
-    Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
-    int64_t samp_num = get<int64_t>(v);
+    int64_t samp_num = to_int(t.header_const().get("SAMP_NUM"));
     uint64_t bytes_num = samp_num * common.bytes_per_sample;
     if (bytes_num != common.samp_buf.size())
         common.samp_buf.resize(bytes_num);
@@ -493,6 +556,8 @@ void OSEGY::Impl::write_trace_samples_fix(Trace const& t)
     vector<double> const& samples = t.samples();
     for (auto samp : samples)
         write_sample(&buf, samp);
+    // zeros instead of samples of previous trace
+    std::fill(buf, common.samp_buf.data() + common.samp_buf.size(), 0);
     common.file.write(common.samp_buf.data(), common.samp_buf.size());
 }
 
@@ -520,6 +585,14 @@ void OSEGY::write_additional_trace_headers(Trace::Header const& hdr)
 {
     pimpl->write_additional_trace_headers(hdr);
 }
+void OSEGY::check_trace_samples_fix(Trace const& t)
+{
+    pimpl->check_trace_samples_fix(t);
+}
+void OSEGY::check_trace_samples_var(Trace const& t)
+{
+    pimpl->check_trace_samples_var(t);
+}
 void OSEGY::write_trace_samples_fix(Trace const& t)
 {
     pimpl->write_trace_samples_fix(t);
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index abbf91d..ffe4c80 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -57,6 +57,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
     if (sgy.common().binary_header != zero) {
         sgy.resize_samp_buf();
         write_trace = [this](Trace& tr) {
+            sgy.check_trace_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
@@ -93,6 +94,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 											 sgy.common().bytes_per_sample);
 				sgy.write_bin_header();
             }
+            sgy.check_trace_samples_fix(tr);
             sgy.write_trace_header(tr.header());
             sgy.write_trace_samples_fix(tr);
         };
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 0374c38..be20af1 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -66,11 +66,13 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
         if (sgy.common().binary_header.fixed_tr_length) {
             sgy.resize_samp_buf();
             write_trace = [this](Trace& tr) {
+                sgy.check_trace_samples_fix(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_fix(tr);
             };
         } else {
             write_trace = [this](Trace& tr) {
+                sgy.check_trace_samples_var(tr);
                 sgy.write_trace_header(tr.header());
                 sgy.write_trace_samples_var(tr);
             };
@@ -113,6 +115,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				sgy.write_bin_header();
 				sgy.common().file.seekp(first_trace_pos);
 			}
+			sgy.check_trace_samples_var(tr);
 			sgy.write_trace_header(tr.header());
 			sgy.write_trace_samples_var(tr);
         };
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 55e03d8..edb304c 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -77,24 +77,28 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             sgy.resize_samp_buf();
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
         } else {
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
+                    sgy.check_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
             else
                 write_trace = [this](Trace& tr) {
+                    sgy.check_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
@@ -104,6 +108,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_fix(tr);
@@ -111,6 +116,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             else
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_trace_samples_fix(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_fix(tr);
                 };
@@ -118,6 +124,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_additional_trace_headers(tr.header());
                     sgy.write_trace_samples_var(tr);
@@ -125,6 +132,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
             else
                 write_trace = [this](Trace& tr) {
                     set_min_hdrs(tr);
+                    sgy.check_trace_samples_var(tr);
                     sgy.write_trace_header(tr.header());
                     sgy.write_trace_samples_var(tr);
                 };
-- 
2.43.0


From 30b2a93e635cd692b26c325395104298892ef5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:43 +0000
Subject: [PATCH 23/76] fix: headers without a map were skipped one by one, up
 to 2^31 times per trace

---
 src/ISEGY.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index f27d604..f789c03 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -511,7 +511,11 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 				}
 			}
 		} else {
-			file_skip_bytes(CommonSEGY::TR_HEADER_SIZE);
+			// there are no maps for the rest of headers, skip them all
+			file_skip_bytes((common.binary_header.max_num_add_tr_headers + 1
+							 - i) * static_cast<streamoff>
+							(CommonSEGY::TR_HEADER_SIZE));
+			break;
 		}
 	}
     return hdr;
-- 
2.43.0


From 0122b5eebf43cc90d58006d2331db132b5df4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:44 +0000
Subject: [PATCH 24/76] fix: traces with skipped headers behind the end of file
 were delivered

---
 src/ISEGY.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index f789c03..e995a91 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -512,9 +512,11 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 			}
 		} else {
 			// there are no maps for the rest of headers, skip them all
-			file_skip_bytes((common.binary_header.max_num_add_tr_headers + 1
-							 - i) * static_cast<streamoff>
+			file_skip_bytes((common.binary_header.max_num_add_tr_headers - i)
+							* static_cast<streamoff>
 							(CommonSEGY::TR_HEADER_SIZE));
+			// seeking does not fail behind the end of file, reading does
+			fill_buf_from_file(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
 			break;
 		}
 	}
-- 
2.43.0


From 7c57bd7f49712a960b2af2138cbbdb436c515c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:10 +0000
Subject: [PATCH 25/76] fix: name table of orientation header was shorter than
 its list of names

---
 src/CommonSEGD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 59202a7..8f6485c 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -736,7 +736,9 @@ static char const* ghOri_names[] = {
     "Time Stamp",
     "Orientation Type",
     "Ref Orient Valid",
+    "Rotation Applied",
     "Rot North Applied",
+    "Applied",
     "General header type"
 };
 
-- 
2.43.0


From 633780e2d61c024fa72d7028c35e71487a00a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:10 +0000
Subject: [PATCH 26/76] fix: some keys of default trace header map had no or
 wrong description

---
 src/CommonSEGY.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index 98ad931..418ac4c 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -398,7 +398,7 @@ map<string, string> CommonSEGY::trace_header_description = {
     { "HIGH_CUT_SLOPE", "High-cut slope (dB/octave)." },
     { "YEAR", "Year data recorded." },
     { "DAY", "Day of year." },
-    { "HOUR", "Year data recorded." },
+    { "HOUR", "Hour of day." },
     { "MINUTE", "Minute of hour." },
     { "SECOND", "Second of minute." },
 	{ "TIME_BASIS_CODE", "Time basis code. 1 = local, 2 = GMT, 4 = UTC, "
@@ -423,6 +423,8 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"4 = A, 5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "TRANS_CONST", "Transduction Constant. Transforms trace samples to the "
 		"Transduction Units" },
+	{ "TRANS_CONST_MANT", "Transduction Constant. Mantissa." },
+	{ "TRANS_CONST_EXP", "Transduction Constant. Power of ten exponent." },
 	{ "TRANS_UNITS", "Transduction Units. 1 = Pa, 2 = V, 3 = mV, 4 = A, "
 		"5 = m, 6 = m/s, 7 = m/s/s, 8 = N, 9 = W" },
 	{ "DEVICE_ID", "Device/Trace Identifier. The unit number or id of the "
@@ -439,11 +441,15 @@ map<string, string> CommonSEGY::trace_header_description = {
 		"source orientation. In-line." },
 	{ "SOURCE_MEASUREMENT", "Source Measurement. Describes the "
 		"source effort used to generate the trace." },
+	{ "SOURCE_MEASUREMENT_MANT", "Source Measurement. Mantissa." },
+	{ "SOURCE_MEASUREMENT_EXP", "Source Measurement. Power of ten "
+		"exponent." },
 	{ "SOU_MEAS_UNIT", "The unit used for the Source Measurement. "
 		"1 = J, 2 = kW, 3 = Pa, 4 = Bar, 5 = N, 6 = kg." },
 	{ "R_DEPTH", "Receiver group depth below the surface locacation of "
 		"receiver group." },
     { "NANO_SECOND", "Nanoseconds to add to Second of minute." },
+    { "NANOSECOND", "Nanoseconds to add to Second of minute." },
 	{ "CABLE_NUM", "Cable number for multi-cable acquisition or "
 		"Recording Device/Sensor ID number." },
 	{ "ADD_TRC_HDR_NUM", "Number of additional trace header extension "
-- 
2.43.0


From 0619c0e4ca0eae4321313183723148d61a344653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:35 +0000
Subject: [PATCH 27/76] fix: failure to write trailer stanzas terminated the
 program

---
 src/OSEGYRev2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index edb304c..3281bac 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -191,8 +191,12 @@ OSEGYRev2::OSEGYRev2(string name, vector<string> ths,
 
 OSEGYRev2::~OSEGYRev2()
 {
-    common().file.seekg(0, ios_base::end);
-    if (common().binary_header.num_of_trailer_stanza)
-        write_trailer_stanzas();
+    // an exception leaving destructor would terminate the program
+    try {
+        common().file.seekg(0, ios_base::end);
+        if (common().binary_header.num_of_trailer_stanza)
+            write_trailer_stanzas();
+    } catch (...) {
+    }
 }
 } // namespace sedaman
-- 
2.43.0


From 708af08dd34540b5ad3ab777fadb582689345106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 28/76] fix: extended number of channel sets of SEG-D records
 was never used

---
 src/ISEGD.cpp       | 2 +-
 src/OSEGD.cpp       | 5 ++++-
 src/OSEGDRev2_1.cpp | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index faf14b3..625af6f 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -169,7 +169,7 @@ void ISEGD::Impl::read_headers_before_traces()
     assign_sample_reading();
     // read header for each scan type
     uint16_t ch_sets_per_scan_type_num =
-	   	common.general_header.channel_sets_per_scan_type ==	1665 ?
+	   	common.general_header.channel_sets_per_scan_type == 165 ?
 	   	common.general_header2.ext_ch_sets_per_scan_type :
 	   	common.general_header.channel_sets_per_scan_type;
     if (!common.general_header.add_gen_hdr_blocks ||
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b581e5d..4fbefa6 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -217,7 +217,10 @@ void OSEGD::Impl::write_general_header1()
     common.general_header.scan_types_per_record > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.scan_types_per_record, false, 2);
-    to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false, 2);
+    common.general_header.channel_sets_per_scan_type > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false,
+			   2);
     to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3e29252..1a4baef 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -34,7 +34,7 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
         uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type == 1665 ?
+		   	sgd.common().general_header.channel_sets_per_scan_type > 99 ?
 		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
 		   	sgd.common().general_header.channel_sets_per_scan_type;
         if (sets.size() != ch_sets_per_scan_type_num)
-- 
2.43.0


From 5f10a9695bf66ab600338124e270229fc5cb8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 29/76] fix: general headers of previous SEG-D record survived
 into the next one

---
 src/ISEGD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 625af6f..8c1aa47 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -282,6 +282,9 @@ void ISEGD::Impl::assign_raw_readers()
 
 void ISEGD::Impl::read_general_headers()
 {
+    common.general_header2 = {};
+    common.general_header3 = {};
+    common.add_gen_hdr_blks_map.clear();
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
     read_gen_hdr1(buf);
-- 
2.43.0


From 6aecb96d1f7462c838495d8a7f43155b6673f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 30/76] fix: general trailer of SEG-D record was read as the
 next record

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 8c1aa47..95d030c 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -144,6 +144,7 @@ Trace ISEGD::read_trace()
     if (pimpl->chans_in_record == pimpl->chans_read) {
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
+        pimpl->read_trailer();
         if (has_record())
             pimpl->read_headers_before_traces();
     }
@@ -1394,7 +1395,7 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(CommonSEGD::GEN_TRLR_SIZE *
+        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
 					   	common.general_header2.gen_trailer_num_of_blocks);
 }
 
-- 
2.43.0


From b5670a475e2992ef5a8399cb241130517c196bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 31/76] fix: SEG-D general headers with equal numbers were lost
 and collided with rev 3 blocks

---
 include/CommonSEGD.hpp | 2 ++
 src/ISEGD.cpp          | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d0c6b0b..708a981 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1527,6 +1527,8 @@ public:
         uint32_t p_filter_delay;
         std::array<char, 27> p_description;
     };
+    // keys of N-th general headers are greater than any block type
+    static constexpr int GEN_HDR_N_KEY = 0x100;
     static constexpr int GEN_HDR_SIZE = 32;
     static constexpr int GEN_TRLR_SIZE = 32;
     static constexpr int CH_SET_HDR_SIZE = 32;
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 95d030c..542d73f 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -376,8 +376,9 @@ void ISEGD::Impl::read_rev2_add_gen_hdr_blks(char const* buf)
     ghN.phase_angle = read_i16(&buf);
     ghN.gen_hdr_block_num = read_u8(&buf);
     ghN.sou_set_num = read_u8(&buf);
-    common.add_gen_hdr_blks_map[static_cast<CommonSEGD::
-		AdditionalGeneralHeader::ADD_GEN_HDR_BLKS>(ghN.gen_hdr_block_num)] =
+    // block number is not unique and can be equal to type of rev 3 block
+    common.add_gen_hdr_blks_map[CommonSEGD::GEN_HDR_N_KEY +
+	   	common.add_gen_hdr_blks_map.size()] =
 	   	make_unique<CommonSEGD::GeneralHeaderN>(ghN);
 }
 
-- 
2.43.0


From 10ae564a72d47efbc11aaaeeae6e545b01809770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 32/76] fix: fields of SEG-D rev 3 general header 2 were read
 at wrong offsets

---
 src/ISEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 542d73f..c98909e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -391,9 +391,10 @@ void ISEGD::Impl::read_gen_hdr2_and_3(char const* buf)
     gh2.extended_skew_blocks = read_u16(&buf);
     buf += 2;
     gh2.gen_trailer_num_of_blocks = read_u32(&buf);
+    gh2.ext_record_len = read_u32(&buf);
     gh2.record_set_number = read_u16(&buf);
     gh2.ext_num_add_blks_in_gen_hdr = read_u16(&buf);
-    gh2.dominant_sampling_int = read_u16(&buf);
+    gh2.dominant_sampling_int = read_u24(&buf);
     gh2.external_hdr_blocks = read_u24(&buf);
     gh2.gen_hdr_block_num = *++buf;
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
-- 
2.43.0


From 4e1e3a724034655fb9a8b0b442f0140a9a6404ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 33/76] fix: number of SEG-D rev 3 additional blocks wrapped
 when less than two

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c98909e..fe1de26 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -310,7 +310,7 @@ void ISEGD::Impl::read_general_headers()
             uint16_t add_blks_num = common.general_header.add_gen_hdr_blocks ==
 			   	0xf ? gh2.ext_num_add_blks_in_gen_hdr :
 			   	common.general_header.add_gen_hdr_blocks;
-            for (uint16_t i = add_blks_num - 2; i; --i) {
+            for (uint16_t i = 2; i < add_blks_num; ++i) {
                 fill_buf_from_file(common.gen_hdr_buf,
 								   CommonSEGD::GEN_HDR_SIZE);
                 read_rev3_add_gen_hdr_blks(common.gen_hdr_buf);
-- 
2.43.0


From 55c0bbed5cc77df0ff64650c2ba608322061cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 34/76] fix: two byte fields of SEG-D rev 3 source blocks were
 read as one byte

---
 src/ISEGD.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index fe1de26..170f09b 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -587,10 +587,10 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
     ghV.reshoot_idx = read_u8(&buf);
     ghV.group_idx = read_u8(&buf);
     ghV.depth_idx = read_u8(&buf);
-    ghV.offset_crossline = read_u8(&buf);
-    ghV.offset_inline = read_u8(&buf);
-    ghV.size = read_u8(&buf);
-    ghV.offset_depth = read_u8(&buf);
+    ghV.offset_crossline = read_u16(&buf);
+    ghV.offset_inline = read_u16(&buf);
+    ghV.size = read_u16(&buf);
+    ghV.offset_depth = read_u16(&buf);
     ghV.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderVib>(move(ghV));
 }
@@ -613,10 +613,10 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderExp>(move(ghE));
 }
@@ -638,10 +638,10 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderAir>(move(ghA));
 }
@@ -663,10 +663,10 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderWat>(move(ghA));
 }
@@ -688,10 +688,10 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderEle>(move(ghE));
 }
@@ -712,10 +712,10 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
     ghO.reshoot_idx = read_u8(&buf);
     ghO.group_idx = read_u8(&buf);
     ghO.depth_idx = read_u8(&buf);
-    ghO.offset_crossline = read_u8(&buf);
-    ghO.offset_inline = read_u8(&buf);
-    ghO.size = read_u8(&buf);
-    ghO.offset_depth = read_u8(&buf);
+    ghO.offset_crossline = read_u16(&buf);
+    ghO.offset_inline = read_u16(&buf);
+    ghO.size = read_u16(&buf);
+    ghO.offset_depth = read_u16(&buf);
     ghO.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderOth>(move(ghO));
 }
-- 
2.43.0


From b305c6b941d7ee18e62d3b8b177a9e93f2419a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 35/76] fix: serial number of SEG-D sensor block reached beyond
 the block

---
 include/CommonSEGD.hpp | 2 +-
 src/pybind/pybind.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index 708a981..baaa7af 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1164,7 +1164,7 @@ public:
         uint64_t instrument_test_time;
         uint32_t sensor_sensitivity;
         uint8_t instr_test_result;
-        char serial_number[28];
+        char serial_number[18];
         uint8_t gen_hdr_block_type;
         ///
         /// \brief Constants to use with names.
diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 87a3708..363e416 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -935,10 +935,10 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderSen_py.def_property(
       "serial_number",
       [](CommonSEGD::GeneralHeaderSen &h) {
-        return string(h.serial_number, 28);
+        return string(h.serial_number, 18);
       },
       [](CommonSEGD::GeneralHeaderSen &h, string &s) {
-        strncpy(h.serial_number, s.c_str(), 28);
+        strncpy(h.serial_number, s.c_str(), 18);
       });
   GeneralHeaderSen_py.def_readwrite(
       "gen_hdr_block_type", &CommonSEGD::GeneralHeaderSen::gen_hdr_block_type);
-- 
2.43.0


From b51e9e092aa8eb83d00279f078a31fd4a14f1040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 36/76] fix: filter delay of SEG-D channel set was truncated to
 one byte

---
 src/CommonSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 8f6485c..dabc88c 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -271,7 +271,7 @@ optional<uint8_t> CommonSEGD::ChannelSetHeader::physical_unit()
 
 optional<uint32_t> CommonSEGD::ChannelSetHeader::filter_delay()
 {
-   	return segd_rev_more_than_2 ? optional<uint8_t>(p_filter_delay) : nullopt;
+   	return segd_rev_more_than_2 ? optional<uint32_t>(p_filter_delay) : nullopt;
 }
 
 optional<array<char, 27>> CommonSEGD::ChannelSetHeader::description()
-- 
2.43.0


From 7b40b5c58f766b637862737fa23042a8216c657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 37/76] fix: extended header flag of SEG-D channel set was sign
 extended

---
 src/ISEGD.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 170f09b..409814b 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1088,7 +1088,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
 	   	third_notch_filter, number_of_samples = 0, samp_int = 0,
 	   	filter_delay = 0;
     double descale_multiplier;
-    array<char, 27> description;
+    array<char, 27> description {};
     if (!common.general_header.add_gen_hdr_blocks ||
 	   	common.general_header2.segd_rev_major < 3) {
         scan_type_number = from_bcd<int>(&buf, false, 2);
@@ -1111,7 +1111,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         second_notch_filter = from_bcd<int>(&buf, false, 4);
         third_notch_filter = from_bcd<int>(&buf, false, 4);
         ext_ch_set_num = read_u16(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         trc_hdr_ext = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
@@ -1129,7 +1129,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
         trc_hdr_ext = read_u8(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         channel_gain = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
-- 
2.43.0


From 7038a1f915c3c15e90c490d4480f80c16cc780df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 38/76] fix: rev 3 fields were reported for SEG-D channel sets
 of older revisions

---
 src/ISEGD.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 409814b..546cd34 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1117,6 +1117,14 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         vert_stack = read_u8(&buf);
         streamer_no = read_u8(&buf);
         array_forming = read_u8(&buf);
+        return CommonSEGD::ChannelSetHeader(
+            scan_type_number, channel_set_number, channel_type,
+            channel_set_start_time, channel_set_end_time, descale_multiplier,
+            number_of_channels, subscans_per_ch_set, channel_gain,
+            alias_filter_freq, alias_filter_slope, low_cut_filter_freq,
+            low_cut_filter_slope, first_notch_filter, second_notch_filter,
+            third_notch_filter, ext_ch_set_num, ext_hdr_flag, trc_hdr_ext,
+            vert_stack, streamer_no, array_forming);
     } else {
         scan_type_number = from_bcd<int>(&buf, false, 2);
         channel_set_number = read_u16(&buf);
-- 
2.43.0


From 52777d6b16454b89261c536887a642ab0cb74e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 39/76] fix: 64-bit unsigned fields of SEG-D trace header
 extension were read at wrong offset

---
 src/ISEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 546cd34..30fb1b3 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1315,7 +1315,7 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
                     hdr[p.second.first] = read_i64(&pos);
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&buf));
+                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&pos));
                     break;
                 case Trace::Header::ValueType::ibm:
                     hdr[p.second.first] = dbl_from_ibm_float(&pos);
-- 
2.43.0


From ef99b0636de52a34904dd6b11f17107d75cb2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 40/76] fix: extended trace number of SEG-D rev 3 was ignored

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 30fb1b3..f9f6c5e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1354,8 +1354,8 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             }
             if (common.general_header2.segd_rev_major > 2) {
                 uint32_t ext_tr_num = read_u24(&buf);
-                if (get<int64_t>(hdr["TRACE_NUMBER"]) == 16665)
-                    hdr["TRACE_NUMBER"] = ext_tr_num;
+                if (get<int64_t>(hdr["CHAN"]) == 16665)
+                    hdr["CHAN"] = ext_tr_num;
                 hdr["SAMP_NUM"] = read_u32(&buf);
                 hdr["SENSOR_MOVING"] = read_u8(&buf);
                 ++buf;
-- 
2.43.0


From 8fec04469b68621047ca4bf230645f7e72fe1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:02 +0000
Subject: [PATCH 41/76] fix: SEG-D trace header extensions without map were
 read with maps out of bounds

---
 src/ISEGD.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index f9f6c5e..1dd3ecd 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1284,6 +1284,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
         char const* buf = common.trc_ext_hdr_buf;
         if (common.trace_header_extension.size()) {
+            // skip extensions without map
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                continue;
             for (auto& p : common.trace_header_extension[i]) {
                 char const* pos = common.trc_ext_hdr_buf + p.first;
                 switch (p.second.second) {
-- 
2.43.0


From df47e99cf8bfa3f1234724b8e246dde29a5494be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:42 +0000
Subject: [PATCH 42/76] fix: SEG-D samples of packed formats were decoded wrong

---
 src/ISEGD.cpp | 76 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 1dd3ecd..8e46519 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -54,6 +54,9 @@ private:
     void file_skip_bytes(streamoff off);
     void check_trc_hdr_ext();
     function<double(char const**)> read_sample;
+    // four samples of format 8015 share their exponents
+    double packed_samples[4];
+    int packed_counter;
     function<uint8_t(char const**)> read_u8;
     function<int8_t(char const**)> read_i8;
     function<uint16_t(char const**)> read_u16;
@@ -920,44 +923,51 @@ ISEGD::Impl::read_measurement_hdr(char const* buf)
     return make_unique<CommonSEGD::GeneralHeaderMeas>(move(ghM));
 }
 
+// value of a sign bit followed by one's complement fraction of given size
+static int ones_complement(int val, int bits)
+{
+    int mask = (1 << bits) - 1;
+    return val & (1 << bits) ? -(~val & mask) : val & mask;
+}
+
 void ISEGD::Impl::assign_sample_reading()
 {
     switch (common.general_header.format_code) {
     case 8015:
         common.bits_per_sample = 20;
         read_sample = [this](char const** buf) {
-            static double result[4];
-            static int counter = 0;
-            if (counter == 4)
-                counter = 0;
-            if (!counter) {
+            if (!packed_counter) {
                 int exp[4];
                 for (int i = 0; i < 4; i += 2) {
-                    exp[i] = **buf >> 4;
-                    exp[i + 1] = **buf++ & 0xf;
+                    uint8_t val = read_u8(buf);
+                    exp[i] = val >> 4;
+                    exp[i + 1] = val & 0xf;
                 }
                 for (int i = 0; i < 4; ++i)
-                    result[i] = read_i16(buf) * pow(2, exp[i] - 15);
+                    packed_samples[i] = ones_complement(read_u16(buf), 15) *
+                        pow(2, exp[i] - 15);
             }
-            return result[counter++];
+            double result = packed_samples[packed_counter];
+            packed_counter = (packed_counter + 1) % 4;
+            return result;
         };
         break;
     case 8022:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            return sign * (**buf++ & 0xf) * pow(2, exp - 4);
+        read_sample = [this](char const** buf) {
+            uint8_t val = read_u8(buf);
+            int exp = val >> 4 & 0b111;
+            return ones_complement((val & 0x80) >> 3 | (val & 0xf), 4) *
+                pow(4, exp) / pow(2, 4);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            uint16_t frac = **buf++ & 0xf;
-            frac = (frac << 8) & **buf++;
-            return sign * frac * pow(2, exp - 12);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int exp = val >> 12 & 0b111;
+            return ones_complement((val & 0x8000) >> 3 | (val & 0xfff), 12) *
+                pow(4, exp) / pow(2, 12);
         };
         break;
     case 8036:
@@ -970,20 +980,20 @@ void ISEGD::Impl::assign_sample_reading()
         break;
     case 8042:
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            return sign * (**buf++ & 0x1f) / pow(2, 5) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint8_t val = read_u8(buf);
+            int sign = val & 0x80 ? -1 : 1;
+            int exp = val >> 5 & 0b11;
+            return sign * (val & 0x1f) / pow(2, 5) * pow(16, exp);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            uint16_t frac = **buf++ & 0x1f;
-            frac = (frac << 8) & **buf++;
-            return sign * frac / pow(2, 13) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            uint16_t val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = val >> 13 & 0b11;
+            return sign * (val & 0x1fff) / pow(2, 13) * pow(16, exp);
         };
         break;
     case 8048:
@@ -1381,12 +1391,16 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    if (common.trc_samp_buf.size() != (samp_num * common.bits_per_sample) / 8)
-        common.trc_samp_buf.resize((samp_num * common.bits_per_sample) / 8);
+    uint64_t samp_in_file = common.general_header.format_code == 8015 ?
+        (static_cast<uint64_t>(samp_num) + 3) / 4 * 4 : samp_num;
+    uint64_t bytes_num = samp_in_file * common.bits_per_sample / 8;
+    if (common.trc_samp_buf.size() != bytes_num)
+        common.trc_samp_buf.resize(bytes_num);
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
     double descale = pow(2, curr_ch_set.descale_multiplier);
+    packed_counter = 0;
     for (uint32_t i = 0; i < samp_num; ++i)
         result[i] = read_sample(&buf) * descale;
     return result;
-- 
2.43.0


From 8c93876d363603cbd6a84f31032387ede9b2a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:42 +0000
Subject: [PATCH 43/76] fix: exponent of SEG-D IBM samples was not biased

---
 src/ISEGD.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 8e46519..ef1c052 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -998,11 +998,7 @@ void ISEGD::Impl::assign_sample_reading()
         break;
     case 8048:
         common.bits_per_sample = 32;
-        read_sample = [this](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf++ & 0b01111111;
-            return sign * read_u24(buf) / pow(2, 24) * pow(16, exp);
-        };
+        read_sample = dbl_from_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
-- 
2.43.0


From 30edf8ef86ff67dad59e4765bfdf5e02cb1699ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:42 +0000
Subject: [PATCH 44/76] fix: SEG-D little endian 24-bit samples were decoded
 wrong

---
 src/ISEGD.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index ef1c052..c453c75 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1025,9 +1025,10 @@ void ISEGD::Impl::assign_sample_reading()
 		   	{ return swap(read_i24(buf)); };
         else
             read_sample = [](char const** buf) {
-                uint32_t result = read<uint16_t>(buf) << 8 |
-				   	read<uint8_t>(buf);
-                return result & 0x800000 ? result | 0xff000000 : result;
+                uint32_t result = read<uint16_t>(buf);
+                result |= read<uint8_t>(buf) << 16;
+                return static_cast<int32_t>(result & 0x800000 ?
+                                            result | 0xff000000 : result);
             };
         break;
     case 9038:
-- 
2.43.0


From bf98deb8a85e02510a2d4ebf2898d377b09c714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 45/76] fix: SEG-D trace of unknown scan type or channel set
 was looked up out of bounds

---
 src/ISEGD.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c453c75..3658dc4 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1379,9 +1379,14 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
     uint32_t samp_num;
+    uint64_t scan_type_idx = get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1;
+    uint64_t ch_set_idx = get<int64_t>(hdr["CH_SET_NUM"]) - 1;
+    if (scan_type_idx >= common.channel_sets.size() ||
+        ch_set_idx >= common.channel_sets[scan_type_idx].size())
+        throw Exception(__FILE__, __LINE__,
+            "no channel set for scan type and channel set number of trace");
     CommonSEGD::ChannelSetHeader curr_ch_set =
-	   	common.channel_sets[get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1]
-		[get<int64_t>(hdr["CH_SET_NUM"]) - 1];
+	   	common.channel_sets[scan_type_idx][ch_set_idx];
     if (hdr.find("SAMP_NUM") != hdr.end())
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
-- 
2.43.0


From eb41a2ff167a75a3bb01b97600b91fa3582601d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 46/76] fix: impossible numbers of samples in SEG-D trace were
 accepted

---
 src/ISEGD.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 3658dc4..e0fad88 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1387,8 +1387,13 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
             "no channel set for scan type and channel set number of trace");
     CommonSEGD::ChannelSetHeader curr_ch_set =
 	   	common.channel_sets[scan_type_idx][ch_set_idx];
-    if (hdr.find("SAMP_NUM") != hdr.end())
-        samp_num = get<int64_t>(hdr["SAMP_NUM"]);
+    if (hdr.find("SAMP_NUM") != hdr.end()) {
+        int64_t num = get<int64_t>(hdr["SAMP_NUM"]);
+        if (num < 0 || num > UINT32_MAX)
+            throw Exception(__FILE__, __LINE__,
+                "impossible number of samples in trace header");
+        samp_num = num;
+    }
     else if (curr_ch_set.number_of_samples())
         samp_num = *curr_ch_set.number_of_samples();
     else
@@ -1396,6 +1401,8 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
     uint64_t samp_in_file = common.general_header.format_code == 8015 ?
         (static_cast<uint64_t>(samp_num) + 3) / 4 * 4 : samp_num;
     uint64_t bytes_num = samp_in_file * common.bits_per_sample / 8;
+    if (bytes_num > static_cast<uint64_t>(end_of_data - curr_pos))
+        throw Exception(__FILE__, __LINE__, "unexpected end of file");
     if (common.trc_samp_buf.size() != bytes_num)
         common.trc_samp_buf.resize(bytes_num);
     fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
-- 
2.43.0


From bbb74f554b675a9087733fac3670f06097705872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 47/76] fix: SEG-D record without channels was never left

---
 src/ISEGD.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index e0fad88..d210612 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -2,6 +2,7 @@
 #include "Exception.hpp"
 #include "Trace.hpp"
 #include "util.hpp"
+#include <algorithm>
 #include <cfloat>
 #include <cmath>
 #include <cstdint>
@@ -17,6 +18,7 @@ using std::get;
 using std::ios_base;
 using std::make_unique;
 using std::map;
+using std::min;
 using std::move;
 using std::nullopt;
 using std::optional;
@@ -48,6 +50,7 @@ public:
     uint64_t chans_read;
 
 private:
+    void read_record_headers();
     void read_general_headers();
     CommonSEGD::ChannelSetHeader read_ch_set_hdr();
     void fill_buf_from_file(char* buf, streamsize n);
@@ -139,6 +142,8 @@ bool ISEGD::has_trace()
 
 Trace ISEGD::read_trace()
 {
+    if (!has_trace())
+        throw Exception(__FILE__, __LINE__, "there are no traces to read");
     unordered_map<string, Trace::Header::Value> hdr =
 	   	pimpl->read_trace_header();
     pimpl->read_trace_header_ext(hdr);
@@ -146,10 +151,11 @@ Trace ISEGD::read_trace()
     ++pimpl->chans_read;
     if (pimpl->chans_in_record == pimpl->chans_read) {
         pimpl->chans_in_record = pimpl->chans_read = 0;
-        pimpl->common.channel_sets.clear();
         pimpl->read_trailer();
         if (has_record())
             pimpl->read_headers_before_traces();
+        else
+            pimpl->common.channel_sets.clear();
     }
     return Trace(move(hdr), move(samples));
 }
@@ -169,6 +175,19 @@ ISEGD::Impl::Impl(CommonSEGD com)
 
 void ISEGD::Impl::read_headers_before_traces()
 {
+    read_record_headers();
+    // records without channels have nothing to read
+    while (!chans_in_record) {
+        read_trailer();
+        if (curr_pos == end_of_data)
+            break;
+        read_record_headers();
+    }
+}
+
+void ISEGD::Impl::read_record_headers()
+{
+    common.channel_sets.clear();
     read_general_headers();
     assign_sample_reading();
     // read header for each scan type
@@ -1431,8 +1450,9 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
-					   	common.general_header2.gen_trailer_num_of_blocks);
+        file_skip_bytes(min<streamoff>(end_of_data - curr_pos,
+            static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
+					   	common.general_header2.gen_trailer_num_of_blocks));
 }
 
 CommonSEGD::GeneralHeader ISEGD::general_header()
-- 
2.43.0


From 516de1e39463c8e46e75f2a2223ff6f86e110c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 48/76] fix: SEG-D trace header extension maps reaching out of
 the block were accepted

---
 src/CommonSEGD.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index dabc88c..48273e4 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -18,6 +18,45 @@ using std::unique_ptr;
 using std::vector;
 
 namespace sedaman {
+// throws if a field of trace header extension does not fit its block
+static void check_trc_hdr_ext(vector<map<uint32_t, pair<string,
+    Trace::Header::ValueType>>> const& maps)
+{
+    for (auto& hdr_map : maps) {
+        for (auto& item : hdr_map) {
+            uint32_t size = 0;
+            switch (item.second.second) {
+            case Trace::Header::ValueType::int8_t:
+            case Trace::Header::ValueType::uint8_t:
+                size = 1;
+                break;
+            case Trace::Header::ValueType::int16_t:
+            case Trace::Header::ValueType::uint16_t:
+                size = 2;
+                break;
+            case Trace::Header::ValueType::int24_t:
+            case Trace::Header::ValueType::uint24_t:
+                size = 3;
+                break;
+            case Trace::Header::ValueType::int32_t:
+            case Trace::Header::ValueType::uint32_t:
+            case Trace::Header::ValueType::ibm:
+            case Trace::Header::ValueType::ieee_single:
+                size = 4;
+                break;
+            case Trace::Header::ValueType::int64_t:
+            case Trace::Header::ValueType::uint64_t:
+            case Trace::Header::ValueType::ieee_double:
+                size = 8;
+                break;
+            }
+            if (item.first > CommonSEGD::TRACE_HEADER_EXT_SIZE - size)
+                throw Exception(__FILE__, __LINE__,
+                    "field of trace header extension map is out of block");
+        }
+    }
+}
+
 CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     GeneralHeader gh, GeneralHeader2 gh2, GeneralHeader3 gh3,
     vector<shared_ptr<AdditionalGeneralHeader>> add_ghs,
@@ -37,6 +76,7 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     , channel_sets { ch_sets }
     , trace_header_extension { trc_hdr_ext }
 {
+    check_trc_hdr_ext(trace_header_extension);
     fstream fl;
     fl.exceptions(fstream::failbit | fstream::badbit);
     fl.open(file_name, mode);
-- 
2.43.0


From 94568bcd60b2c7e4f3542884f6bf73a96d113b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:29 +0000
Subject: [PATCH 49/76] fix: additional SEG-D general headers of unexpected
 class or number dereferenced null

---
 src/CommonSEGD.cpp | 63 +++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 48273e4..ef37715 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -82,140 +82,147 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     fl.open(file_name, mode);
     file = move(fl);
     for (shared_ptr<AdditionalGeneralHeader>& item : add_ghs) {
+        if (!item)
+            throw Exception(__FILE__, __LINE__,
+                "additional general header is empty");
+        // for GeneralHeaderN from rev 2, its block number is not a type
+        if (auto ghN = dynamic_cast<GeneralHeaderN*>(item.get())) {
+            add_gen_hdr_blks_map[GEN_HDR_N_KEY + add_gen_hdr_blks_map.size()]
+                = make_unique<GeneralHeaderN>(*ghN);
+            continue;
+        }
         switch (item->type()) {
         case AdditionalGeneralHeader::VESSEL_CREW_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::VESSEL_CREW_ID] =
 			   	make_unique<GeneralHeaderVes>(
-					*dynamic_cast<GeneralHeaderVes*>(item.get()));
+					dynamic_cast<GeneralHeaderVes&>(*item));
             break;
         case AdditionalGeneralHeader::SURVEY_AREA_NAME:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::SURVEY_AREA_NAME] =
 			   	make_unique<GeneralHeaderSur>(
-					*dynamic_cast<GeneralHeaderSur*>(item.get()));
+					dynamic_cast<GeneralHeaderSur&>(*item));
             break;
         case AdditionalGeneralHeader::CLIENT_NAME:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::CLIENT_NAME] =
 			   	make_unique<GeneralHeaderCli>(
-					*dynamic_cast<GeneralHeaderCli*>(item.get()));
+					dynamic_cast<GeneralHeaderCli&>(*item));
             break;
         case AdditionalGeneralHeader::JOB_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::JOB_ID] =
 			   	make_unique<GeneralHeaderJob>(
-					*dynamic_cast<GeneralHeaderJob*>(item.get()));
+					dynamic_cast<GeneralHeaderJob&>(*item));
             break;
         case AdditionalGeneralHeader::LINE_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::LINE_ID] =
 			   	make_unique<GeneralHeaderLin>(
-					*dynamic_cast<GeneralHeaderLin*>(item.get()));
+					dynamic_cast<GeneralHeaderLin&>(*item));
             break;
         case AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderVib>(
-					*dynamic_cast<GeneralHeaderVib*>(item.get()));
+					dynamic_cast<GeneralHeaderVib&>(*item));
             break;
         case AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderExp>(
-					*dynamic_cast<GeneralHeaderExp*>(item.get()));
+					dynamic_cast<GeneralHeaderExp&>(*item));
             break;
         case AdditionalGeneralHeader::AIRGUN_SOURCE_INFO:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::AIRGUN_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderAir>(
-					*dynamic_cast<GeneralHeaderAir*>(item.get()));
+					dynamic_cast<GeneralHeaderAir&>(*item));
             break;
         case AdditionalGeneralHeader::WATERGUN_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::WATERGUN_SOURCE_INFO]	=
 			   	make_unique<GeneralHeaderWat>(
-					*dynamic_cast<GeneralHeaderWat*>(item.get()));
+					dynamic_cast<GeneralHeaderWat&>(*item));
             break;
         case AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE] =
 			   	make_unique<GeneralHeaderEle>(
-					*dynamic_cast<GeneralHeaderEle*>(item.get()));
+					dynamic_cast<GeneralHeaderEle&>(*item));
             break;
         case AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO] =
 			   	make_unique<GeneralHeaderOth>(
-					*dynamic_cast<GeneralHeaderOth*>(item.get()));
+					dynamic_cast<GeneralHeaderOth&>(*item));
             break;
         case AdditionalGeneralHeader::ADD_SOURCE_INFO:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::ADD_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderAdd>(
-					*dynamic_cast<GeneralHeaderAdd*>(item.get()));
+					dynamic_cast<GeneralHeaderAdd&>(*item));
             break;
         case AdditionalGeneralHeader::SOU_AUX_CHAN_REF:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::SOU_AUX_CHAN_REF] =
 			   	make_unique<GeneralHeaderSaux>(
-					*dynamic_cast<GeneralHeaderSaux*>(item.get()));
+					dynamic_cast<GeneralHeaderSaux&>(*item));
             break;
         case AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK] =
 			   	make_unique<GeneralHeaderSen>(
-					*dynamic_cast<GeneralHeaderSen*>(item.get()));
+					dynamic_cast<GeneralHeaderSen&>(*item));
             break;
         case AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK]
 			   	= make_unique<GeneralHeaderSCa>(
-					*dynamic_cast<GeneralHeaderSCa*>(item.get()));
+					dynamic_cast<GeneralHeaderSCa&>(*item));
             break;
         case AdditionalGeneralHeader::TIME_DRIFT_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::TIME_DRIFT_BLK] =
 			   	make_unique<GeneralHeaderTim>(
-					*dynamic_cast<GeneralHeaderTim*>(item.get()));
+					dynamic_cast<GeneralHeaderTim&>(*item));
             break;
         case AdditionalGeneralHeader::ELECTROMAG_SRC_REC_DESC_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::ELECTROMAG_SRC_REC_DESC_BLK] =
 			   	make_unique<GeneralHeaderElSR>(
-					*dynamic_cast<GeneralHeaderElSR*>(item.get()));
+					dynamic_cast<GeneralHeaderElSR&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK1:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK1] =
 			   	make_unique<GeneralHeaderPos1>(
-					*dynamic_cast<GeneralHeaderPos1*>(item.get()));
+					dynamic_cast<GeneralHeaderPos1&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK2:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK2] =
 			   	make_unique<GeneralHeaderPos2>(
-					*dynamic_cast<GeneralHeaderPos2*>(item.get()));
+					dynamic_cast<GeneralHeaderPos2&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK3:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK3] =
 			   	make_unique<GeneralHeaderPos3>(
-					*dynamic_cast<GeneralHeaderPos3*>(item.get()));
+					dynamic_cast<GeneralHeaderPos3&>(*item));
             break;
         case AdditionalGeneralHeader::COORD_REF_SYSTEM:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::COORD_REF_SYSTEM] =
 			   	make_unique<GeneralHeaderCoord>(
-					*dynamic_cast<GeneralHeaderCoord*>(item.get()));
+					dynamic_cast<GeneralHeaderCoord&>(*item));
             break;
         case AdditionalGeneralHeader::RELATIVE_POS_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::RELATIVE_POS_BLK] =
 			   	make_unique<GeneralHeaderRel>(
-					*dynamic_cast<GeneralHeaderRel*>(item.get()));
+					dynamic_cast<GeneralHeaderRel&>(*item));
             break;
         case AdditionalGeneralHeader::ORIENT_HDR_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::ORIENT_HDR_BLK] =
 			   	make_unique<GeneralHeaderOri>(
-					*dynamic_cast<GeneralHeaderOri*>(item.get()));
+					dynamic_cast<GeneralHeaderOri&>(*item));
             break;
         case AdditionalGeneralHeader::MEASUREMENT_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::MEASUREMENT_BLK] =
 			   	make_unique<GeneralHeaderMeas>(
-					*dynamic_cast<GeneralHeaderMeas*>(item.get()));
+					dynamic_cast<GeneralHeaderMeas&>(*item));
             break;
-        // for GeneralHeaderN from rev 2
         default:
-            add_gen_hdr_blks_map[item->type()] = make_unique<GeneralHeaderN>(
-                *dynamic_cast<GeneralHeaderN*>(item.get()));
-            break;
+            throw Exception(__FILE__, __LINE__,
+                "unknown type of additional general header");
         }
     }
 }
-- 
2.43.0


From 55444ece926e51d21b11e4d9a1ab06f2f2539286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:29 +0000
Subject: [PATCH 50/76] fix: number of channels of SEG-D writer was not
 initialised

---
 src/OSEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4fbefa6..f490f08 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -38,7 +38,8 @@ public:
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
     Impl(CommonSEGD com)
-        : common { move(com) }
+        : chans_in_record { 0 }
+        , common { move(com) }
     {
     }
     CommonSEGD common;
-- 
2.43.0


From c40c3e6b8aabcbf71b95c54518a02cacef112441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:29 +0000
Subject: [PATCH 51/76] fix: powers of 16, zero and all IBM samples were
 written wrong by SEG-D writer

---
 src/OSEGD.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index f490f08..dbdba32 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -175,11 +175,15 @@ void OSEGD::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
-        uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
-		   	pow(2, 24);
-        uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
+        // exact exponent, logarithm is not precise near powers of 16
+        int exp2;
+        frexp(abs_val, &exp2);
+        int exp = (exp2 + 3) >> 2;
+        if (exp < -64 || abs_val == 0)
+            exp = -64;
+        uint32_t fraction = ldexp(abs_val, 24 - 4 * exp);
+        uint32_t result = sign << 31 | static_cast<uint32_t>(exp + 64) << 24 |
+		   	(fraction & 0x00ffffff);
         write_u32(buf, result);
     };
 }
@@ -1174,15 +1178,7 @@ void OSEGD::Impl::assign_sample_writers()
         break;
     case 8048:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 + 1)
-			   	& 0b01111111;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 24)) & 0xffffff;
-            write_u32(buf, sign << 31 | exp << 24 | frac);
-        };
+        write_sample = write_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
-- 
2.43.0


From 566c15d83041774af7277aee3f7bc4aba4506873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:29 +0000
Subject: [PATCH 52/76] fix: scans per block other than powers of two were not
 written to SEG-D general header

---
 src/OSEGD.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index dbdba32..48080c9 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -205,12 +205,17 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.manufac_code, false, 2);
     to_bcd(&ptr, common.general_header.manufac_num, false, 4);
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
-    *ptr++ = common.general_header.base_scan_int * pow(2, 4);
+    *ptr++ = static_cast<uint8_t>(common.general_header.base_scan_int *
+								  pow(2, 4));
     to_bcd(&ptr, common.general_header.polarity, false, 1);
-    int exp = static_cast<unsigned>(log2(common.general_header.
-										 scans_per_block)) & 0x0f;
+    long scans = common.general_header.scans_per_block;
+    int exp = 0;
+    while (exp < 0x0f && scans && !(scans & 1)) {
+        scans /= 2;
+        ++exp;
+    }
     *ptr++ |= exp;
-    *ptr++ = common.general_header.scans_per_block / pow(2, exp);
+    *ptr++ = scans;
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.ext_record_len) {
         write_u16(&ptr, 0x0fff |
-- 
2.43.0


From 540410304aa01d36de70ddbefb9c562388b9ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:29 +0000
Subject: [PATCH 53/76] fix: negative source line and point numbers were
 written wrong to SEG-D general headers

---
 src/OSEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 48080c9..076645d 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -272,11 +272,12 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
         CommonSEGD::GeneralHeaderN* hdr = dynamic_cast<CommonSEGD::GeneralHeaderN*>
 				  (it->second.get());
         write_u24(&buf, hdr->expanded_file_number);
-        uint32_t integer = hdr->sou_line_num;
+        // fraction is positive also for negative numbers
+        int32_t integer = floor(hdr->sou_line_num);
         double frac = hdr->sou_line_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-        integer = hdr->sou_point_num;
+        integer = floor(hdr->sou_point_num);
         frac = hdr->sou_point_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-- 
2.43.0


From 5766152fbb54c80154fb95163ada726ab8c8f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:29 +0000
Subject: [PATCH 54/76] fix: negative descale multiplier was written wrong to
 SEG-D channel set header

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 076645d..7195858 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -840,7 +840,7 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-        uint16_t val = static_cast<uint16_t>(hdr.descale_multiplier *
+        uint16_t val = static_cast<uint16_t>(abs(hdr.descale_multiplier) *
 											 pow(2, 10)) & 0x7fff;
         write_u16(&buf, val | sign);
         to_bcd(&buf, hdr.number_of_channels, false, 4);
-- 
2.43.0


From 247399729e64041e2c7ecb5dc6748c7f478e7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:55 +0000
Subject: [PATCH 55/76] fix: SEG-D trace header values held as other kind could
 not be written

---
 src/OSEGD.cpp | 111 ++++++++++++++++++++++++++++----------------------
 1 file changed, 62 insertions(+), 49 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 7195858..edbeddb 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -895,45 +895,58 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 					  common.ch_set_hdr_buf.size());
 }
 
+// values of trace headers could be set both as integer and floating point
+static int64_t to_int(Trace::Header::Value const& val)
+{
+    return holds_alternative<double>(val) ? get<double>(val)
+                                          : get<int64_t>(val);
+}
+
+static double to_dbl(Trace::Header::Value const& val)
+{
+    return holds_alternative<double>(val) ? get<double>(val)
+                                          : get<int64_t>(val);
+}
+
 void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
 {
     char* buf = common.trc_hdr_buf;
     memset(buf, 0, CommonSEGD::TRACE_HEADER_SIZE);
     optional<Trace::Header::Value> ffid = hdr.get("FFID");
-    if (ffid && get<int64_t>(*ffid) > 9999)
+    if (ffid && to_int(*ffid) > 9999)
         write_u16(&buf, 0xffff);
     else
-        to_bcd(&buf, ffid ? get<int64_t>(*ffid) : 0, false, 4);
+        to_bcd(&buf, ffid ? to_int(*ffid) : 0, false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 2);
+    to_bcd(&buf, tmp ? to_int(*tmp) : 0, false, 2);
     optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && get<int64_t>(*ch_set) > 99)
+    if (ch_set && to_int(*ch_set) > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, get<int64_t>(*ch_set), false, 2);
+        to_bcd(&buf, to_int(*ch_set), false, 2);
     tmp = hdr.get("CHAN");
-    if (tmp && get<int64_t>(*tmp) > 9999)
+    if (tmp && to_int(*tmp) > 9999)
         write_u16(&buf, 0xffff);
     else
-        to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 4);
+        to_bcd(&buf, tmp ? to_int(*tmp) : 0, false, 4);
     tmp = hdr.get("FIRST_TIMING_WORD");
-    write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
+    write_u24(&buf, tmp ? to_dbl(*tmp) * pow(2, 8) : 0);
     tmp = hdr.get("TR_HDR_EXT");
-    *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+    *buf++ = tmp ? to_int(*tmp) : 0;
     tmp = hdr.get("SAMPLE_SKEW");
-    *buf++ = tmp ? get<double>(*tmp) * pow(2, 8) : 0;
+    *buf++ = tmp ? to_dbl(*tmp) * pow(2, 8) : 0;
     tmp = hdr.get("TRACE_EDIT");
-    *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+    *buf++ = tmp ? to_int(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
-    write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
-    write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
-    write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
+    write_u24(&buf, tmp ? to_dbl(*tmp) * pow(2, 8) : 0);
+    write_u16(&buf, ch_set && to_int(*ch_set) < 100 ? 0 : to_int(*ch_set));
+    write_u24(&buf, ffid ? to_int(*ffid) : 0);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
 
 void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
 {
-    uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
+    uint8_t ext_hdr_blks = to_int(hdr.get("TR_HDR_EXT").value_or(int64_t { 0 }));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
         std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
@@ -947,43 +960,43 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 char* pos = common.trc_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
-                    write_i8(&pos, get<int64_t>(*tmp));
+                    write_i8(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint8_t:
-                    write_u8(&pos, get<int64_t>(*tmp));
+                    write_u8(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::int16_t:
-                    write_i16(&pos, get<int64_t>(*tmp));
+                    write_i16(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint16_t:
-                    write_u16(&pos, get<int64_t>(*tmp));
+                    write_u16(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::int24_t:
-                    write_i24(&pos, get<int64_t>(*tmp));
+                    write_i24(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint24_t:
-                    write_u24(&pos, get<int64_t>(*tmp));
+                    write_u24(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::int32_t:
-                    write_i32(&pos, get<int64_t>(*tmp));
+                    write_i32(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint32_t:
-                    write_u32(&pos, get<int64_t>(*tmp));
+                    write_u32(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::int64_t:
-                    write_i64(&pos, get<int64_t>(*tmp));
+                    write_i64(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    write_u64(&pos, get<int64_t>(*tmp));
+                    write_u64(&pos, to_int(*tmp));
                     break;
                 case Trace::Header::ValueType::ibm:
-                    write_ibm_float(&pos, get<double>(*tmp));
+                    write_ibm_float(&pos, to_dbl(*tmp));
                     break;
                 case Trace::Header::ValueType::ieee_single:
-                    write_IEEE_float(&pos, get<double>(*tmp));
+                    write_IEEE_float(&pos, to_dbl(*tmp));
                     break;
                 case Trace::Header::ValueType::ieee_double:
-                    write_IEEE_double(&pos, get<double>(*tmp));
+                    write_IEEE_double(&pos, to_dbl(*tmp));
                     break;
                 }
             }
@@ -993,10 +1006,10 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             double r_line;
             int64_t r_line_int;
             if (tmp && holds_alternative<double>(*tmp)) {
-                r_line = tmp ? get<double>(*tmp) : 0;
+                r_line = tmp ? to_dbl(*tmp) : 0;
                 r_line_int = r_line;
             } else {
-                r_line_int = tmp ? get<int64_t>(*tmp) : 0;
+                r_line_int = tmp ? to_int(*tmp) : 0;
                 r_line = r_line_int;
             }
             write_u24(&buf, r_line);
@@ -1004,35 +1017,35 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             double r_point;
             int64_t r_point_int;
             if (tmp && holds_alternative<double>(*tmp)) {
-                r_point = tmp ? get<double>(*tmp) : 0;
+                r_point = tmp ? to_dbl(*tmp) : 0;
                 r_point_int = r_point;
             } else {
-                r_point_int = tmp ? get<int64_t>(*tmp) : 0;
+                r_point_int = tmp ? to_int(*tmp) : 0;
                 r_point = r_point_int;
             }
             write_u24(&buf, r_point);
             tmp = hdr.get("R_POINT_IDX");
-            *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+            *buf++ = tmp ? to_int(*tmp) : 0;
             if (common.general_header2.segd_rev_major > 1) {
                 tmp = hdr.get("SAMP_NUM");
-                write_u24(&buf, tmp ? get<int64_t>(*tmp) : 0);
+                write_u24(&buf, tmp ? to_int(*tmp) : 0);
             } else {
                 tmp = hdr.get("RESHOOT_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
                 tmp = hdr.get("GROUP_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
                 tmp = hdr.get("DEPTH_IDX");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
             }
             if (common.general_header2.segd_rev_major > 1) {
                 tmp = hdr.get("R_LINE");
                 double r_line;
                 int64_t r_line_int;
                 if (tmp && holds_alternative<double>(*tmp)) {
-                    r_line = tmp ? get<double>(*tmp) : 0;
+                    r_line = tmp ? to_dbl(*tmp) : 0;
                     r_line_int = r_line;
                 } else {
-                    r_line_int = tmp ? get<int64_t>(*tmp) : 0;
+                    r_line_int = tmp ? to_int(*tmp) : 0;
                     r_line = r_line_int;
                 }
                 write_u24(&buf, r_line_int);
@@ -1041,28 +1054,28 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 double r_point;
                 int64_t r_point_int;
                 if (tmp && holds_alternative<double>(*tmp)) {
-                    r_point = tmp ? get<double>(*tmp) : 0;
+                    r_point = tmp ? to_dbl(*tmp) : 0;
                     r_point_int = r_point;
                 } else {
-                    r_point_int = tmp ? get<int64_t>(*tmp) : 0;
+                    r_point_int = tmp ? to_int(*tmp) : 0;
                     r_point = r_point_int;
                 }
                 write_u24(&buf, r_point_int);
                 write_u16(&buf, (r_point - r_point_int) * pow(2, 16));
                 tmp = hdr.get("SENSOR_TYPE");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
             }
             if (common.general_header2.segd_rev_major > 2) {
                 tmp = hdr.get("TRACE_NUMBER");
-                if (tmp && get<int64_t>(*tmp) > 9999)
-                    write_u24(&buf, get<int64_t>(*tmp));
+                if (tmp && to_int(*tmp) > 9999)
+                    write_u24(&buf, to_int(*tmp));
                 tmp = hdr.get("SAMP_NUM");
-                write_u32(&buf, tmp ? get<int64_t>(*tmp) : 0);
+                write_u32(&buf, tmp ? to_int(*tmp) : 0);
                 tmp = hdr.get("SENSOR_MOVING");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
                 ++buf;
                 tmp = hdr.get("PHYSICAL_UNIT");
-                *buf++ = tmp ? get<int64_t>(*tmp) : 0;
+                *buf++ = tmp ? to_int(*tmp) : 0;
             }
         }
         common.file.write(common.trc_hdr_buf,
@@ -1083,13 +1096,13 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     if (tmp == std::nullopt)
         scan_type = 1;
     else
-        scan_type = get<int64_t>(*tmp);
+        scan_type = to_int(*tmp);
     uint16_t ch_set;
     tmp = trc.header_const().get("CH_SET_NUM");
     if (tmp == std::nullopt)
         ch_set = 1;
     else
-        ch_set = get<int64_t>(*tmp);
+        ch_set = to_int(*tmp);
     double descale = common.channel_sets[scan_type - 1][ch_set - 1]
     .descale_multiplier;
     descale = pow(2, descale);
-- 
2.43.0


From 7ea4e95f2e0e7e17dbfd122299af88d9c94bbca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:55 +0000
Subject: [PATCH 56/76] fix: SEG-D trace header extensions were written through
 a too short buffer

---
 src/OSEGD.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index edbeddb..dc6e4e9 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -949,7 +949,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     uint8_t ext_hdr_blks = to_int(hdr.get("TR_HDR_EXT").value_or(int64_t { 0 }));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
-        std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
         if (common.trace_header_extension.size()) {
             for (auto& item : common.trace_header_extension[i]) {
@@ -957,7 +957,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 if (tmp == std::nullopt)
                     throw Exception(__FILE__, __LINE__,
                         "no such header in trace");
-                char* pos = common.trc_hdr_buf + item.first;
+                char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
                     write_i8(&pos, to_int(*tmp));
@@ -1001,7 +1001,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 }
             }
         } else if (i == 0) {
-            char* buf = common.trc_hdr_buf;
+            char* buf = common.trc_ext_hdr_buf;
             tmp = hdr.get("R_LINE");
             double r_line;
             int64_t r_line_int;
@@ -1078,7 +1078,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? to_int(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_hdr_buf,
+        common.file.write(common.trc_ext_hdr_buf,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
 }
-- 
2.43.0


From a3514d0983d63027329d6923f8145ef2daca69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:55 +0000
Subject: [PATCH 57/76] fix: SEG-D trace header extensions without map were
 written with maps out of bounds

---
 src/OSEGD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index dc6e4e9..8ecabf7 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -951,7 +951,10 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     for (int i = 0; i < ext_hdr_blks; ++i) {
         std::memset(common.trc_ext_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
-        if (common.trace_header_extension.size()) {
+        if (common.trace_header_extension.size() <= static_cast<size_t>(i) &&
+            common.trace_header_extension.size()) {
+            // extensions without map are empty
+        } else if (common.trace_header_extension.size()) {
             for (auto& item : common.trace_header_extension[i]) {
                 tmp = hdr.get(item.second.first);
                 if (tmp == std::nullopt)
-- 
2.43.0


From d6f3f778c8eed73b34b7595645321ee8f137d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:55 +0000
Subject: [PATCH 58/76] fix: number of samples was not written to SEG-D traces
 of revision 1

---
 src/OSEGD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 8ecabf7..47ecb0c 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1029,7 +1029,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             write_u24(&buf, r_point);
             tmp = hdr.get("R_POINT_IDX");
             *buf++ = tmp ? to_int(*tmp) : 0;
-            if (common.general_header2.segd_rev_major > 1) {
+            if (common.general_header2.segd_rev_major < 3) {
                 tmp = hdr.get("SAMP_NUM");
                 write_u24(&buf, tmp ? to_int(*tmp) : 0);
             } else {
-- 
2.43.0


From 633c843c4bebb849c5b6dec66318a38c0a76e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:55 +0000
Subject: [PATCH 59/76] fix: SEG-D trace without channel set or scan type
 number could not be written

---
 src/OSEGD.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 47ecb0c..209d62e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -918,12 +918,13 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     else
         to_bcd(&buf, ffid ? to_int(*ffid) : 0, false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? to_int(*tmp) : 0, false, 2);
-    optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && to_int(*ch_set) > 99)
+    to_bcd(&buf, tmp ? to_int(*tmp) : 1, false, 2);
+    tmp = hdr.get("CH_SET_NUM");
+    int64_t ch_set = tmp ? to_int(*tmp) : 1;
+    if (ch_set > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, to_int(*ch_set), false, 2);
+        to_bcd(&buf, ch_set, false, 2);
     tmp = hdr.get("CHAN");
     if (tmp && to_int(*tmp) > 9999)
         write_u16(&buf, 0xffff);
@@ -939,7 +940,7 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     *buf++ = tmp ? to_int(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
     write_u24(&buf, tmp ? to_dbl(*tmp) * pow(2, 8) : 0);
-    write_u16(&buf, ch_set && to_int(*ch_set) < 100 ? 0 : to_int(*ch_set));
+    write_u16(&buf, ch_set < 100 ? 0 : ch_set);
     write_u24(&buf, ffid ? to_int(*ffid) : 0);
     common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
 }
-- 
2.43.0


From 9cca41657894620c4c1a3fb0d045fcb40ee93789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:55 +0000
Subject: [PATCH 60/76] fix: SEG-D integer samples were truncated after
 descaling or written wrong

---
 src/OSEGD.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 209d62e..3a0e02a 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1169,11 +1169,13 @@ void OSEGD::Impl::assign_sample_writers()
         break;
     case 8036:
         common.bits_per_sample = 24;
-        write_sample = [this](char** buf, double val) { write_i24(buf, val); };
+        write_sample = [this](char** buf, double val)
+	   	{ write_i24(buf, llround(val)); };
         break;
     case 8038:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) { write_i32(buf, val); };
+        write_sample = [this](char** buf, double val)
+	   	{ write_i32(buf, llround(val)); };
         break;
     case 8042:
         common.bits_per_sample = 8;
@@ -1227,8 +1229,9 @@ void OSEGD::Impl::assign_sample_writers()
 		   	{ return write_i24(buf, swap(static_cast<int32_t>(val))); };
         else
             write_sample = [](char** buf, double val) {
-                write<int16_t>(buf, val);
-                write<int8_t>(buf, static_cast<int32_t>(val) >> 16);
+                int32_t tmp = llround(val);
+                write<int16_t>(buf, tmp);
+                write<int8_t>(buf, tmp >> 16);
             };
         break;
     case 9038:
@@ -1238,7 +1241,7 @@ void OSEGD::Impl::assign_sample_writers()
 		   	{ return write_i32(buf, swap(static_cast<int32_t>(val))); };
         else
             write_sample = [](char** buf, double val)
-		   	{ return write<int32_t>(buf, val); };
+		   	{ return write<int32_t>(buf, llround(val)); };
         break;
     case 9058:
         common.bits_per_sample = 32;
-- 
2.43.0


From 06d4485f5e3657bfebaaef5336d344d7694303b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:54 +0000
Subject: [PATCH 61/76] fix: SEG-D samples of packed formats were written wrong

---
 src/OSEGD.cpp | 102 +++++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 50 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 3a0e02a..d3662d3 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -46,6 +46,9 @@ public:
 
 private:
     function<void(char**, double)> write_sample;
+    // four samples of format 8015 share their exponents
+    double packed_samples[4];
+    int packed_counter;
     function<void(char**, uint8_t)> write_u8;
     function<void(char**, uint8_t)> write_i8;
     function<void(char**, uint16_t)> write_u16;
@@ -1089,9 +1092,11 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
 
 void OSEGD::Impl::write_trace_samples(Trace const& trc)
 {
-    if (common.trc_samp_buf.size() != trc.samples().size() *
+    size_t samp_in_file = common.general_header.format_code == 8015 ?
+        (trc.samples().size() + 3) / 4 * 4 : trc.samples().size();
+    if (common.trc_samp_buf.size() != samp_in_file *
 	   	common.bits_per_sample / 8)
-        common.trc_samp_buf.resize(trc.samples().size() *
+        common.trc_samp_buf.resize(samp_in_file *
 								   common.bits_per_sample / 8);
     char* buf = common.trc_samp_buf.data();
     vector<double> const& samples = trc.samples();
@@ -1110,61 +1115,68 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
     double descale = common.channel_sets[scan_type - 1][ch_set - 1]
     .descale_multiplier;
     descale = pow(2, descale);
+    packed_counter = 0;
     for (auto samp : samples)
         write_sample(&buf, samp / descale);
+    while (packed_counter)
+        write_sample(&buf, 0);
     common.file.write(common.trc_samp_buf.data(), common.trc_samp_buf.size());
 }
 
+// returns sign bit followed by fraction of given size, exponent is a power of
+// 2 to exp_bits and as small as possible
+static uint32_t pack(double val, int exp_bits, uint32_t max_exp,
+    int frac_bits, bool ones_complement, uint32_t& exp)
+{
+    uint32_t max_frac = (1u << frac_bits) - 1;
+    uint32_t frac = max_frac;
+    for (exp = 0; exp <= max_exp; ++exp) {
+        double tmp = round(ldexp(abs(val), frac_bits -
+            exp_bits * static_cast<int>(exp)));
+        if (tmp <= max_frac) {
+            frac = tmp;
+            break;
+        }
+    }
+    if (exp > max_exp)
+        exp = max_exp;
+    // there is no negative zero
+    if (!(val < 0) || !frac)
+        return frac;
+    return 1u << frac_bits | (ones_complement ? ~frac & max_frac : frac);
+}
+
 void OSEGD::Impl::assign_sample_writers()
 {
     switch (common.general_header.format_code) {
     case 8015:
         common.bits_per_sample = 20;
         write_sample = [this](char** buf, double val) {
-            static double result[4];
-            static int counter = 0;
-            result[counter++] = val;
-            if (counter == 4) {
-                counter = 0;
-                uint32_t sign = val < 0 ? 1 : 0;
-                uint16_t exp[4], frac[4];
-                for (int i = 0; i < 4; ++i) {
-                    double abs_val = abs(result[i]);
-                    exp[i] = static_cast<uint16_t>(log(abs_val) /
-												   log(2) + 1 + 15) & 0xf;
-                    frac[i] = abs_val / pow(2, exp[i] - 15);
-                }
-                for (int i = 0; i < 4; i += 2) {
-                    **buf = exp[i] << 4 | exp[i + 1];
-                    ++*buf;
-                }
+            packed_samples[packed_counter++] = val;
+            if (packed_counter == 4) {
+                packed_counter = 0;
+                uint32_t exp[4], frac[4];
                 for (int i = 0; i < 4; ++i)
-                    write_i16(buf, frac[i] | sign << 15);
+                    frac[i] = pack(packed_samples[i], 1, 0xf, 15, true, exp[i]);
+                write_u8(buf, exp[0] << 4 | exp[1]);
+                write_u8(buf, exp[2] << 4 | exp[3]);
+                for (int i = 0; i < 4; ++i)
+                    write_u16(buf, frac[i]);
             }
         };
         break;
     case 8022:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 4) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 4)) & 0xf;
-            **buf++ = sign << 7 | exp << 4 | frac;
+        write_sample = [this](char** buf, double val) {
+            uint32_t exp, frac = pack(val, 2, 0b111, 4, true, exp);
+            write_u8(buf, frac >> 4 << 7 | exp << 4 | (frac & 0xf));
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 12) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 12)) & 0xfff;
-            write_u16(buf, sign << 15 | exp << 12 | frac);
+            uint32_t exp, frac = pack(val, 2, 0b111, 12, true, exp);
+            write_u16(buf, frac >> 12 << 15 | exp << 12 | (frac & 0xfff));
         };
         break;
     case 8036:
@@ -1179,26 +1191,16 @@ void OSEGD::Impl::assign_sample_writers()
         break;
     case 8042:
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 5)) & 0x1f;
-            **buf++ = sign << 7 | exp << 5 | frac;
+        write_sample = [this](char** buf, double val) {
+            uint32_t exp, frac = pack(val, 4, 0b11, 5, false, exp);
+            write_u8(buf, frac >> 5 << 7 | exp << 5 | (frac & 0x1f));
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 13)) & 0x1fff;
-            write_u16(buf, sign << 15 | exp << 13 | frac);
+            uint32_t exp, frac = pack(val, 4, 0b11, 13, false, exp);
+            write_u16(buf, frac >> 13 << 15 | exp << 13 | (frac & 0x1fff));
         };
         break;
     case 8048:
-- 
2.43.0


From 50c3dae67ecd6f4ebaeba987f0e86e934e2cbc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:54 +0000
Subject: [PATCH 62/76] fix: inconsistent general headers were accepted by
 SEG-D writer

---
 src/OSEGDRev2_1.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 1a4baef..85859a0 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -25,6 +25,33 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
 {
+    CommonSEGD::GeneralHeader const& gh = sgd.common().general_header;
+    CommonSEGD::GeneralHeader2 const& gh2 = sgd.common().general_header2;
+    if (gh2.segd_rev_major > 2)
+        throw Exception(__FILE__, __LINE__,
+                        "Revision in general header 2 is greater than 2.");
+    // general header 2 is always written
+    if (gh.add_gen_hdr_blocks < 1 || gh.add_gen_hdr_blocks > 15 ||
+        sgd.common().add_gen_hdr_blks_map.size() !=
+        static_cast<size_t>(gh.add_gen_hdr_blocks) - 1)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of additional general headers not equal to "
+                        "number in general header.");
+    for (auto& item : sgd.common().add_gen_hdr_blks_map)
+        if (!dynamic_cast<CommonSEGD::GeneralHeaderN*>(item.second.get()))
+            throw Exception(__FILE__, __LINE__,
+                            "Revision 3 general header in revision 2 file.");
+    // these numbers have no extended fields in general header 2
+    if (gh.scan_types_per_record > 99 || gh.skew_blocks < 0 ||
+        gh.skew_blocks > 99)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of scan types or skew blocks is greater than "
+                        "99.");
+    for (auto& sets : sgd.common().channel_sets)
+        for (auto& hdr : sets)
+            if (hdr.number_of_channels > 9999)
+                throw Exception(__FILE__, __LINE__,
+                                "Number of channels is greater than 9999.");
     sgd.assign_raw_writers();
     sgd.assign_sample_writers();
     sgd.write_general_header1();
-- 
2.43.0


From 4b0cb60182d4a6a9f2e86a3e7102bfc99270d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:54 +0000
Subject: [PATCH 63/76] fix: missing or short extended and external SEG-D
 headers were read out of bounds

---
 src/OSEGDRev2_1.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 85859a0..c98fe30 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -21,6 +21,19 @@ private:
     OSEGDRev2_1& sgd;
 };
 
+static void check_blocks(vector<vector<char>> const& blocks, uint32_t num,
+                         size_t size)
+{
+    if (blocks.size() < num)
+        throw Exception(__FILE__, __LINE__,
+                        "Number of extended or external headers is less than "
+                        "in general header.");
+    for (auto& block : blocks)
+        if (block.size() != size)
+            throw Exception(__FILE__, __LINE__,
+                            "Size of extended or external header is wrong.");
+}
+
 OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
@@ -79,13 +92,17 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
         }
     }
     uint32_t extended_blocks =
-	   	sgd.common().general_header.extended_hdr_blocks == 165 ?
+	   	sgd.common().general_header.extended_hdr_blocks > 99 ?
 	   	sgd.common().general_header2.extended_hdr_blocks :
 	   	sgd.common().general_header.extended_hdr_blocks;
     uint32_t external_blocks =
-	   	sgd.common().general_header.external_hdr_blocks == 165 ?
+	   	sgd.common().general_header.external_hdr_blocks > 99 ?
 	   	sgd.common().general_header2.external_hdr_blocks :
 	   	sgd.common().general_header.external_hdr_blocks;
+    check_blocks(sgd.common().extended_headers, extended_blocks,
+                 CommonSEGD::EXTENDED_HEADER_SIZE);
+    check_blocks(sgd.common().external_headers, external_blocks,
+                 CommonSEGD::EXTERNAL_HEADER_SIZE);
     for (uint32_t i = 0; i < extended_blocks; ++i)
         sgd.common().file.write(sgd.common().extended_headers[i].data(),
         CommonSEGD::EXTENDED_HEADER_SIZE);
-- 
2.43.0


From fff7305cabd890abe14d1b78523b8734a9c99588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:54 +0000
Subject: [PATCH 64/76] fix: SEG-D traces not fitting the record were written
 in part or out of bounds

---
 include/OSEGD.hpp   |  1 +
 src/OSEGD.cpp       | 36 ++++++++++++++++++++++++++++++++++++
 src/OSEGDRev2_1.cpp |  1 +
 3 files changed, 38 insertions(+)

diff --git a/include/OSEGD.hpp b/include/OSEGD.hpp
index 4bd7b49..d15020a 100644
--- a/include/OSEGD.hpp
+++ b/include/OSEGD.hpp
@@ -71,6 +71,7 @@ protected:
     void write_general_header2_and_3();
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
+    void check_trace(Trace const& trc);
     void write_trace_header(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index d3662d3..e9068a6 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -34,6 +34,7 @@ public:
     void write_general_header2_and_3();
     void write_rev3_add_gen_hdrs();
     void write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr);
+    void check_trace(Trace const& trc);
     void write_trace_header(Trace::Header const& hdr);
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
@@ -911,6 +912,40 @@ static double to_dbl(Trace::Header::Value const& val)
                                           : get<int64_t>(val);
 }
 
+void OSEGD::Impl::check_trace(Trace const& trc)
+{
+    Trace::Header const& hdr = trc.header_const();
+    optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
+    uint64_t scan_type = (tmp ? to_int(*tmp) : 1) - 1;
+    tmp = hdr.get("CH_SET_NUM");
+    uint64_t ch_set = (tmp ? to_int(*tmp) : 1) - 1;
+    if (scan_type >= common.channel_sets.size() ||
+        ch_set >= common.channel_sets[scan_type].size())
+        throw Exception(__FILE__, __LINE__,
+            "no channel set for scan type and channel set number of trace");
+    tmp = hdr.get("TR_HDR_EXT");
+    int64_t ext_num = tmp ? to_int(*tmp) : 0;
+    if (ext_num < 0 || ext_num > UINT8_MAX)
+        throw Exception(__FILE__, __LINE__,
+            "impossible number of trace header extensions");
+    // number of samples is stored in extensions
+    tmp = hdr.get("SAMP_NUM");
+    int64_t samp_num = tmp ? to_int(*tmp) : 0;
+    bool samp_num_stored = ext_num && !common.trace_header_extension.size();
+    for (size_t i = 0; i < static_cast<size_t>(ext_num) &&
+         i < common.trace_header_extension.size(); ++i) {
+        for (auto& item : common.trace_header_extension[i]) {
+            if (!hdr.get(item.second.first))
+                throw Exception(__FILE__, __LINE__, "no such header in trace");
+            samp_num_stored = samp_num_stored || item.second.first == "SAMP_NUM";
+        }
+    }
+    if (samp_num_stored &&
+        samp_num != static_cast<int64_t>(trc.samples().size()))
+        throw Exception(__FILE__, __LINE__,
+            "number of samples in header not equal to number of samples");
+}
+
 void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
 {
     char* buf = common.trc_hdr_buf;
@@ -1295,6 +1330,7 @@ void OSEGD::write_general_header2_and_3()
 void OSEGD::write_rev3_add_gen_hdrs() { pimpl->write_rev3_add_gen_hdrs(); }
 void OSEGD::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 { pimpl->write_ch_set_hdr(hdr); }
+void OSEGD::check_trace(Trace const& trc) { pimpl->check_trace(trc); }
 void OSEGD::write_trace_header(Trace::Header const& hdr)
 { pimpl->write_trace_header(hdr); }
 void OSEGD::write_ext_trace_headers(Trace::Header const& hdr)
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index c98fe30..d94210f 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -118,6 +118,7 @@ void OSEGDRev2_1::write_trace(Trace& t)
 		throw Exception(__FILE__, __LINE__,
 						"you tring write more traces than specified "
 						"in channel set headers");
+    check_trace(t);
     write_trace_header(t.header());
     write_ext_trace_headers(t.header());
     write_trace_samples(t);
-- 
2.43.0


From 9e42e175fd447a35936c7ad63c6f4cccd9d611ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:18 +0000
Subject: [PATCH 65/76] fix: four bit codes greater than 9 were written wrong
 by SEG-D writer

---
 src/OSEGD.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index e9068a6..63998d7 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -211,7 +211,7 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
     *ptr++ = static_cast<uint8_t>(common.general_header.base_scan_int *
 								  pow(2, 4));
-    to_bcd(&ptr, common.general_header.polarity, false, 1);
+    *ptr = common.general_header.polarity << 4;
     long scans = common.general_header.scans_per_block;
     int exp = 0;
     while (exp < 0x0f && scans && !(scans & 1)) {
@@ -225,7 +225,7 @@ void OSEGD::Impl::write_general_header1()
         write_u16(&ptr, 0x0fff |
         (static_cast<unsigned>(common.general_header.record_type) << 12));
     } else {
-        to_bcd(&ptr, common.general_header.record_type, false, 1);
+        *ptr = common.general_header.record_type << 4;
         to_bcd(&ptr, common.general_header.record_length, true, 3);
     }
     common.general_header.scan_types_per_record > 99 ?
@@ -848,10 +848,9 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 											 pow(2, 10)) & 0x7fff;
         write_u16(&buf, val | sign);
         to_bcd(&buf, hdr.number_of_channels, false, 4);
-        to_bcd(&buf, hdr.channel_type, false, 1);
-        ++buf;
-        to_bcd(&buf, log2(hdr.subscans_per_ch_set), false, 1);
-        to_bcd(&buf, hdr.channel_gain, true, 1);
+        *buf++ = hdr.channel_type << 4;
+        *buf++ = static_cast<int>(log2(hdr.subscans_per_ch_set)) << 4 |
+            hdr.channel_gain;
         to_bcd(&buf, hdr.alias_filter_freq, false, 4);
         to_bcd(&buf, hdr.alias_filter_slope, false, 4);
         to_bcd(&buf, hdr.low_cut_filter_freq, false, 4);
-- 
2.43.0


From 1f2c833c31e4b48895d6ea880c83bdddf8524b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:16 +0000
Subject: [PATCH 66/76] fix: integer SEG-D trace header values were rounded to
 double

---
 src/OSEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 63998d7..9b55511 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -901,8 +901,8 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
 // values of trace headers could be set both as integer and floating point
 static int64_t to_int(Trace::Header::Value const& val)
 {
-    return holds_alternative<double>(val) ? get<double>(val)
-                                          : get<int64_t>(val);
+    return holds_alternative<double>(val) ?
+        static_cast<int64_t>(get<double>(val)) : get<int64_t>(val);
 }
 
 static double to_dbl(Trace::Header::Value const& val)
-- 
2.43.0


From 25c449d2af5ca8f089999853753ed2b04a1c4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:16 +0000
Subject: [PATCH 67/76] fix: channel set numbers greater than 99 were written
 wrong by SEG-D writer

---
 src/OSEGD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 9b55511..905fcba 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -840,7 +840,10 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
     if (!common.general_header.add_gen_hdr_blocks ||
 	   	common.general_header2.segd_rev_major < 3) {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        to_bcd(&buf, hdr.channel_set_number, false, 2);
+        // greater numbers are in extended channel set number
+        hdr.channel_set_number > 99 ?
+            (void)(*buf++ = static_cast<uint8_t>(0xff)) :
+            to_bcd(&buf, hdr.channel_set_number, false, 2);
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-- 
2.43.0


From ca74a228765b4b81f5eab5fb3859f17fdd12b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:14 +0000
Subject: [PATCH 68/76] fix: refuse more extended text headers than their count
 can hold

---
 src/OSEGYRev1.cpp | 4 ++++
 src/OSEGYRev2.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index be20af1..d67c618 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -43,6 +43,10 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
             if (s.size() != CommonSEGY::TEXT_HEADER_SIZE)
                 throw Exception(__FILE__, __LINE__,
 							   	"size of text header should be 3200 bytes");
+    }
+    // number of extended headers is stored as 16 bit signed integer
+    if (txt_hdrs.size() - 1 > INT16_MAX) {
+        throw Exception(__FILE__, __LINE__, "too many text headers");
     }
 	sgy.common().text_headers = txt_hdrs;
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 3281bac..5a16bc3 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -44,6 +44,10 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
                 throw Exception(__FILE__, __LINE__,
 							   	"size of text header should be 3200 bytes");
     }
+    // number of extended headers is stored as 16 bit signed integer
+    if (txt_hdrs.size() - 1 > INT16_MAX) {
+        throw Exception(__FILE__, __LINE__, "too many text headers");
+    }
     if (!trlr_stnzs.empty()) {
         for (string& s : trlr_stnzs)
             if (s.size() != CommonSEGY::TEXT_HEADER_SIZE)
-- 
2.43.0


From d1404856fbeeab574164f776c88599332b3656db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:49 +0000
Subject: [PATCH 69/76] fix: python attributes of electromagnetic and
 calibration blocks showed other fields

---
 src/pybind/pybind.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 363e416..4c53e08 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -706,9 +706,11 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderEle_py.def_readwrite("reshoot_idx",
                                     &CommonSEGD::GeneralHeaderEle::reshoot_idx);
   GeneralHeaderEle_py.def_readwrite("group_idx",
+                                    &CommonSEGD::GeneralHeaderEle::group_idx);
+  GeneralHeaderEle_py.def_readwrite("depth_idx",
                                     &CommonSEGD::GeneralHeaderEle::depth_idx);
   GeneralHeaderEle_py.def_readwrite(
-      "offset_crossline", &CommonSEGD::GeneralHeaderEle::offset_inline);
+      "offset_crossline", &CommonSEGD::GeneralHeaderEle::offset_crossline);
   GeneralHeaderEle_py.def_readwrite(
       "offset_inline", &CommonSEGD::GeneralHeaderEle::offset_inline);
   GeneralHeaderEle_py.def_readwrite("size",
@@ -955,11 +957,11 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderSCa_py.def_readwrite("phase1",
                                     &CommonSEGD::GeneralHeaderSCa::phase1);
   GeneralHeaderSCa_py.def_readwrite("freq2",
-                                    &CommonSEGD::GeneralHeaderSCa::freq1);
+                                    &CommonSEGD::GeneralHeaderSCa::freq2);
   GeneralHeaderSCa_py.def_readwrite("amp2",
-                                    &CommonSEGD::GeneralHeaderSCa::amp1);
+                                    &CommonSEGD::GeneralHeaderSCa::amp2);
   GeneralHeaderSCa_py.def_readwrite("phase2",
-                                    &CommonSEGD::GeneralHeaderSCa::phase1);
+                                    &CommonSEGD::GeneralHeaderSCa::phase2);
   GeneralHeaderSCa_py.def_readwrite(
       "calib_applied", &CommonSEGD::GeneralHeaderSCa::calib_applied);
   GeneralHeaderSCa_py.def_readwrite(
-- 
2.43.0


From 5da3d2d5960a411761916a44f51b078815ac2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:49 +0000
Subject: [PATCH 70/76] fix: python accessors of client name and explosive
 source returned other blocks

---
 src/pybind/pybind.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 4c53e08..23748fe 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -1139,7 +1139,7 @@ PYBIND11_MODULE(pysedaman, m) {
                "Returns general header vessel crew id.");
   ISEGD_py.def("general_header_survey_name", &ISEGD::general_header_survey_name,
                "Returns general header survey survey name.");
-  ISEGD_py.def("general_header_client_name", &ISEGD::general_header_survey_name,
+  ISEGD_py.def("general_header_client_name", &ISEGD::general_header_client_name,
                "Returns general header client name.");
   ISEGD_py.def("general_header_job_id", &ISEGD::general_header_job_id,
                "Returns general header job id.");
@@ -1149,7 +1149,7 @@ PYBIND11_MODULE(pysedaman, m) {
                &ISEGD::general_header_vibrator_info,
                "Returns general header vibrator source info.");
   ISEGD_py.def("general_header_explosive_info",
-               &ISEGD::general_header_airgun_info,
+               &ISEGD::general_header_explosive_info,
                "Returns general header explosive source info.");
   ISEGD_py.def("general_header_airgun_info", &ISEGD::general_header_airgun_info,
                "Returns general header airgun source info.");
-- 
2.43.0


From dcfaa83055552c909032d3d9c1a9fa989da63a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:49 +0000
Subject: [PATCH 71/76] fix: some fields of SEG-D headers could not be reached
 from python

---
 src/pybind/pybind.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 23748fe..d44c5c0 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -398,6 +398,8 @@ PYBIND11_MODULE(pysedaman, m) {
                                   &CommonSEGD::GeneralHeaderN::sou_line_num);
   GeneralHeaderN_py.def_readwrite("sou_point_num",
                                   &CommonSEGD::GeneralHeaderN::sou_point_num);
+  GeneralHeaderN_py.def_readwrite("sou_point_index",
+                                  &CommonSEGD::GeneralHeaderN::sou_point_index);
   GeneralHeaderN_py.def_readwrite("phase_control",
                                   &CommonSEGD::GeneralHeaderN::phase_control);
   GeneralHeaderN_py.def_readwrite("type_vibrator",
@@ -590,6 +592,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "source_set_num", &CommonSEGD::GeneralHeaderExp::source_set_num);
   GeneralHeaderExp_py.def_readwrite("reshoot_idx",
                                     &CommonSEGD::GeneralHeaderExp::reshoot_idx);
+  GeneralHeaderExp_py.def_readwrite("group_idx",
+                                    &CommonSEGD::GeneralHeaderExp::group_idx);
   GeneralHeaderExp_py.def_readwrite("depth_idx",
                                     &CommonSEGD::GeneralHeaderExp::depth_idx);
   GeneralHeaderExp_py.def_readwrite(
@@ -984,6 +988,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "timedrift_corr", &CommonSEGD::GeneralHeaderTim::timedrift_corr);
   GeneralHeaderTim_py.def_readwrite("corr_method",
                                     &CommonSEGD::GeneralHeaderTim::corr_method);
+  GeneralHeaderTim_py.def_readwrite(
+      "gen_hdr_block_type", &CommonSEGD::GeneralHeaderTim::gen_hdr_block_type);
   py::enum_<CommonSEGD::GeneralHeaderTim::Name>(GeneralHeaderTim_py, "Name");
   GeneralHeaderTim_py.def("name_as_string",
                           &CommonSEGD::GeneralHeaderTim::name_as_string);
@@ -1050,6 +1056,9 @@ PYBIND11_MODULE(pysedaman, m) {
       "quantity_class", &CommonSEGD::GeneralHeaderMeas::quantity_class);
   GeneralHeaderMeas_py.def_readwrite(
       "unit_of_measure", &CommonSEGD::GeneralHeaderMeas::unit_of_measure);
+  GeneralHeaderMeas_py.def_readwrite(
+      "measurement_description",
+      &CommonSEGD::GeneralHeaderMeas::measurement_description);
   GeneralHeaderMeas_py.def_readwrite(
       "gen_hdr_block_type", &CommonSEGD::GeneralHeaderMeas::gen_hdr_block_type);
   py::enum_<CommonSEGD::GeneralHeaderMeas::Name>(GeneralHeaderMeas_py, "Name");
@@ -1098,6 +1107,8 @@ PYBIND11_MODULE(pysedaman, m) {
       "third_notch_filter", &CommonSEGD::ChannelSetHeader::third_notch_filter);
   ChannelSetHeader_py.def_readwrite(
       "ext_ch_set_num", &CommonSEGD::ChannelSetHeader::ext_ch_set_num);
+  ChannelSetHeader_py.def_readwrite(
+      "ext_hdr_flag", &CommonSEGD::ChannelSetHeader::ext_hdr_flag);
   ChannelSetHeader_py.def_readwrite("trc_hdr_ext",
                                     &CommonSEGD::ChannelSetHeader::trc_hdr_ext);
   ChannelSetHeader_py.def_readwrite("vert_stack",
@@ -1111,6 +1122,8 @@ PYBIND11_MODULE(pysedaman, m) {
   ChannelSetHeader_py.def("samp_int", &CommonSEGD::ChannelSetHeader::samp_int);
   ChannelSetHeader_py.def("filter_phase",
                           &CommonSEGD::ChannelSetHeader::filter_phase);
+  ChannelSetHeader_py.def("physical_unit",
+                          &CommonSEGD::ChannelSetHeader::physical_unit);
   ChannelSetHeader_py.def("filter_delay",
                           &CommonSEGD::ChannelSetHeader::filter_delay);
   ChannelSetHeader_py.def("description",
-- 
2.43.0


From 13d2a31919fffc650b2e415eb56d46f57ac9b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:49 +0000
Subject: [PATCH 72/76] fix: 24 bit trace header types had no python name

---
 src/pybind/pybind.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index d44c5c0..b191b03 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -41,6 +41,8 @@ PYBIND11_MODULE(pysedaman, m) {
       .value("uint8_t", Trace::Header::ValueType::uint8_t)
       .value("int16_t", Trace::Header::ValueType::int16_t)
       .value("uint16_t", Trace::Header::ValueType::uint16_t)
+      .value("int24_t", Trace::Header::ValueType::int24_t)
+      .value("uint24_t", Trace::Header::ValueType::uint24_t)
       .value("int32_t", Trace::Header::ValueType::int32_t)
       .value("uint32_t", Trace::Header::ValueType::uint32_t)
       .value("int64_t", Trace::Header::ValueType::int64_t)
-- 
2.43.0


From 56d1efb7f2e0faa6ac01d05d79e3d62b00f89633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:49 +0000
Subject: [PATCH 73/76] fix: EBCDIC conversions called from python lost their
 result

---
 src/pybind/pybind.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index b191b03..2c84424 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -61,8 +61,14 @@ PYBIND11_MODULE(pysedaman, m) {
   Header_py.def("keys", &Trace::Header::keys, "Retruns all keys for header");
 
   py::class_<CommonSEGY> CommonSEGY_py(m, "CommonSEGY");
-  CommonSEGY_py.def("ebcdic_to_ascii", &CommonSEGY::ebcdic_to_ascii);
-  CommonSEGY_py.def("ascii_to_ebcdic", &CommonSEGY::ascii_to_ebcdic);
+  CommonSEGY_py.def("ebcdic_to_ascii", [](string ebcdic) {
+    CommonSEGY::ebcdic_to_ascii(ebcdic);
+    return py::bytes(ebcdic);
+  });
+  CommonSEGY_py.def("ascii_to_ebcdic", [](string ascii) {
+    CommonSEGY::ascii_to_ebcdic(ascii);
+    return py::bytes(ascii);
+  });
   CommonSEGY_py.def_readonly_static("default_text_header",
                                     &CommonSEGY::default_text_header);
   CommonSEGY_py.def_readonly_static("TEXT_HEADER_SIZE",
-- 
2.43.0


From 0038867da992958ed2d5fdb0da035a3bdd3c6e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:05 +0000
Subject: [PATCH 74/76] fix: trailer stanzas behind traces of more than 32767
 samples were not found

---
 src/ISEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index e995a91..c9a68c9 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -383,7 +383,7 @@ void ISEGY::Impl::read_trailer_stanzas()
                 common.file.read(trc_hdr_buf, CommonSEGY::TR_HEADER_SIZE);
                 // get number of samples from main header
                 char const* ptr = trc_hdr_buf + 114;
-                uint32_t trc_samp_num = read_i16(&ptr);
+                uint32_t trc_samp_num = read_u16(&ptr);
                 if (common.binary_header.max_num_add_tr_headers) {
                     // if there are additional header(s)
                     // get number of samples from first additional header
-- 
2.43.0


From 39cd372ba25f8e851bd4bed3648a2bb2db671af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:43 +0000
Subject: [PATCH 75/76] fix: trailer stanzas behind traces with more than 65535
 additional headers were not found

---
 src/ISEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c9a68c9..43a9b06 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -391,7 +391,7 @@ void ISEGY::Impl::read_trailer_stanzas()
                     ptr = trc_hdr_buf + 136;
                     trc_samp_num = read_u32(&ptr);
                     ptr = trc_hdr_buf + 156;
-                    uint16_t add_tr_hdr_num = read_u16(&ptr);
+                    streamoff add_tr_hdr_num = read_u16(&ptr);
                     add_tr_hdr_num = add_tr_hdr_num ? add_tr_hdr_num :
 					   	common.binary_header.max_num_add_tr_headers;
                     // skip addional headers
-- 
2.43.0


From 5ea99d2c66c8baf2266aa5ac193bb289a3dc3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 76/76] fix: first trace offset given to revision 2 writer did
 not agree with the written file

---
 src/OSEGYRev2.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 5a16bc3..2d671f7 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -70,6 +70,11 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 	   	sgy.common().text_headers.size() - 1;
     sgy.common().binary_header.num_of_trailer_stanza =
 	   	sgy.common().trailer_stanzas.size();
+    // first trace is always written right after text headers
+    if (sgy.common().binary_header.byte_off_of_first_tr)
+        sgy.common().binary_header.byte_off_of_first_tr =
+            CommonSEGY::TEXT_HEADER_SIZE * sgy.common().text_headers.size() +
+            CommonSEGY::BIN_HEADER_SIZE;
     sgy.assign_raw_writers();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
-- 
2.43.0

