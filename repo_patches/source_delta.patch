From 665fa688c6c20b5bded1921689362a0c6d638605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 01/30] fix: the csv command writes next to its input instead
 of overwriting it

---
 apps/cppsas7bdat-ci.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index edb0dce..49707a8 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -13,6 +13,8 @@
 #include <cppsas7bdat/sink/csv.hpp>
 #include <cppsas7bdat/sink/null.hpp>
 #include <docopt/docopt.h>
+#include <filesystem>
+#include <stdexcept>
 
 namespace {
   static constexpr auto USAGE =
@@ -42,11 +44,11 @@ void process_print(const std::string& _filename, long _n)
 
 std::string get_csv_filename(const std::string& _filename)
 {
-  auto ipos = _filename.rfind('.');
-  if(ipos != _filename.npos) {
-    return _filename.substr(0, ipos+1) + "csv";
-  }
-  return _filename + "csv";
+  auto csv_filename = std::filesystem::path(_filename).replace_extension(".csv").string();
+  // The input must never be overwritten
+  if(csv_filename == _filename)
+    throw std::runtime_error("The output would overwrite the input: " + _filename);
+  return csv_filename;
 }
 
 void process_csv(const std::string& _filename)
@@ -54,7 +56,7 @@ void process_csv(const std::string& _filename)
   const auto csv_filename = get_csv_filename(_filename);
   //std::ofstream csv_os(csv_filename.c_str());
   //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
-  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(_filename.c_str()));
+  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_filename.c_str()));
   reader.read_all();
 }
 
-- 
2.43.0


From e720ac4e956ec32de479adabd891da75feddd0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 02/30] fix: a moved csv file sink writes to its own stream

---
 include/cppsas7bdat/sink/csv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 91dfc2b..3d9fe56 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -91,6 +91,11 @@ struct _ofstream {
 struct csv_ofstream : public _ofstream, public csv {
   explicit csv_ofstream(const char *_pcszfilename)
       : _ofstream(_pcszfilename), csv(ofs) {}
+  // The stream is a member: never keep a reference to the one moved from.
+  csv_ofstream(csv_ofstream &&_other)
+      : _ofstream(std::move(_other)), csv(ofs) {
+    columns = std::move(_other.columns);
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From 56c13c6eb35c46fbdc8e0386b12b69e196cf8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 03/30] fix: the csv sink doubles the quotes inside a string
 field

---
 include/cppsas7bdat/sink/csv.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 3d9fe56..34cb3de 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -71,7 +71,15 @@ struct csv {
 
   void end_of_data() const noexcept {}
 
-  void print(const SV &_x) { fmt::print(os, "\"{}\"", _x); }
+  void print(const SV &_x) {
+    os << '"';
+    for (const char c : _x) {
+      if (c == '"')
+        os << '"'; // A quote inside a field is doubled
+      os << c;
+    }
+    os << '"';
+  }
   void print(const NUMBER _x) {
     if (!std::isnan(_x))
       fmt::print(os, "{}", _x);
-- 
2.43.0


From c9a47fd33528f2f466551e88b8e9fc289a966fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 04/30] fix: the print sink does not take column names for
 format strings

---
 include/cppsas7bdat/sink/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/print.hpp b/include/cppsas7bdat/sink/print.hpp
index 41f861d..5f13c7f 100644
--- a/include/cppsas7bdat/sink/print.hpp
+++ b/include/cppsas7bdat/sink/print.hpp
@@ -67,7 +67,7 @@ struct print {
     fmt::print(os, "#");
     for (const auto &column : columns) {
       fmt::print(os, ",");
-      fmt::print(os, column.name);
+      fmt::print(os, "{}", column.name);
     }
     fmt::print(os, "\n");
   }
-- 
2.43.0


From 579119f4eb736464cfd5f983c9951d0108c05fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 05/30] fix: a missing date, time or datetime cell has a text
 form

---
 src/formatters.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4833586..81fa68f 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -48,6 +48,12 @@ struct IFormatter {
   }
 };
 
+/// Text of a date/time value, which may be missing
+template <typename _Tp> inline STRING temporal_to_string(const _Tp &_x) {
+  return _x.is_special() ? STRING("not-a-date-time")
+                         : cppsas7bdat::to_string(_x);
+}
+
 struct NoFormatter : public IFormatter {
   NoFormatter(const size_t _offset, const size_t _length)
       : IFormatter(_offset, _length, Type::unknown) {
@@ -154,7 +160,7 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_datetime(
+    return temporal_to_string(get_datetime(
         _p)); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
   }
 };
@@ -178,7 +184,7 @@ struct DateFormatter : public DoubleFormatter<_endian> {
   TIME get_time([[maybe_unused]] const void *_p) const noexcept { return {}; }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_date(
+    return temporal_to_string(get_date(
         _p)); // boost::gregorian::to_iso_extended_string(get_date(_p));
   }
 };
@@ -200,7 +206,7 @@ struct TimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(
+    return temporal_to_string(
         get_time(_p)); // boost::posix_time::to_simple_string(get_time(_p));
   }
 };
-- 
2.43.0


From 4e8b7e243272384ed7b5ac2314775f5a243e4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 06/30] fix: date, time and datetime columns shorter than 8
 bytes are decoded from their own bytes

---
 src/formatters.hpp |  2 ++
 src/metadata.hpp   |  4 +++-
 src/types.hpp      | 11 +++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 81fa68f..27d0dbd 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -115,6 +115,8 @@ template <Endian _endian> struct DoubleFormatter : public IFormatter {
   }
 
   NUMBER get_number([[maybe_unused]] const void *_p) const noexcept {
+    if (length < sizeof(NUMBER))
+      return INTERNAL::get_double<_endian>(data(_p), length);
     return INTERNAL::get_double<_endian>(data(_p));
   }
 
diff --git a/src/metadata.hpp b/src/metadata.hpp
index dbffda0..aec5658 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -459,7 +459,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
         else if (column_length == 2)
           add_column(FORMATTER::IntegerFormatter<_endian, int16_t>(
               column_offset, column_length));
-        else if (is_datetime_format(column_format))
+        else if (column_length < 3 || column_length > 8) {
+          // Not a stored double
+        } else if (is_datetime_format(column_format))
           add_column(FORMATTER::DateTimeFormatter<_endian>(column_offset,
                                                            column_length));
         else if (is_date_format(column_format))
diff --git a/src/types.hpp b/src/types.hpp
index 5d39160..f94f204 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -140,6 +140,17 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+/// The _length most significant bytes of a double are stored, 3 <= _length <= 8
+template <Endian _endian>
+inline double get_double(const uint8_t *_buf, const size_t _length) noexcept {
+  uint8_t buf[sizeof(double)]{};
+  if constexpr (_endian == Endian::big)
+    std::memcpy(buf, _buf, _length);
+  else
+    std::memcpy(buf + (sizeof(buf) - _length), _buf, _length);
+  return get_double<_endian>(buf);
+}
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-- 
2.43.0


From a776377dfec80ef155ea00c243f7c1c408acb427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 07/30] fix: no row is delivered from a page that holds none

---
 src/data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index d381427..621cf29 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -153,8 +153,8 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
       return false;
     if (!page)
       return false;
-    // Do we need to read a new page from the file?
-    if (page->next()) {
+    // Do we need to read a new page from the file?  A page may hold no row.
+    while (page->next()) {
       if (!read_next_page())
         return false;
     }
-- 
2.43.0


From 90aec56ba2e4aa5c095c6bbdeeb46d193bcd09cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 08/30] fix: decompressors execute the final command and never
 leave the source or the row

---
 src/decompressors.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index a7d1502..6f6aa53 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -25,7 +25,11 @@ struct SRC_VALUES {
   explicit SRC_VALUES(const BYTES &_values)
       : values(_values), n_src(values.size()) {}
 
-  auto pop() noexcept { return values[i_src++]; }
+  auto pop() {
+    if (!check(1))
+      EXCEPTION::cannot_decompress();
+    return values[i_src++];
+  }
   auto pop(const size_t _n) noexcept {
     auto v = values.substr(i_src, _n);
     i_src += _n;
@@ -97,8 +101,11 @@ struct RDC : public DST_VALUES<_endian, _format> {
 
   void store_pattern(const size_t _offset, const size_t _n) {
     assert_check(_n);
-    buf.copy(i_dst, i_dst - _offset, _n);
-    i_dst += _n;
+    if (_offset > i_dst)
+      EXCEPTION::cannot_decompress();
+    // The pattern may overlap the bytes it produces: byte by byte
+    for (size_t i = 0; i < _n; ++i, ++i_dst)
+      buf.set(i_dst, buf[i_dst - _offset]);
   }
 
   BYTES operator()(const BYTES &_values) {
@@ -204,7 +211,7 @@ struct RLE : public DST_VALUES<_endian, _format> {
       i_dst += n;
     };
 
-    while (src.check(2) && check()) {
+    while (src.check(1) && check()) {
       const auto val = src.pop();
       const uint8_t command = static_cast<uint8_t>(val >> FOUR);
       const size_t end_of_first_byte = static_cast<size_t>(val & 0x0F);
-- 
2.43.0


From 5d92a227c6d8fcc3bb4c319f053b83444adb2159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 09/30] fix: an access outside the page is refused with an
 exception instead of ending the process

---
 src/buffer.hpp   | 38 ++++++++++++++++++++++----------------
 src/metadata.hpp | 12 ++++++------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 0a6a9f6..12b6192 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -60,26 +60,32 @@ public:
   size_t size() const noexcept { return m_size; }
 
   bool check(const size_t _offset, const size_t _length) const noexcept {
-    return _offset + _length <= size();
+    return _length <= size() && _offset <= size() - _length;
   }
 
-  void assert_check(const size_t _offset, const size_t _length) const noexcept {
+  void assert_check(const size_t _offset, const size_t _length) const {
     if (!check(_offset, _length))
       EXCEPTION::invalid_buffer_access(_offset, _length, size());
   }
 
   template <ASSERT _assert = ASSERT::NO>
   const uint8_t *data(const size_t _offset,
-                      [[maybe_unused]] const size_t _length) const noexcept {
+                      [[maybe_unused]] const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
+    if constexpr (_assert == ASSERT::YES) {
+      assert_check(_offset, _length);
+    } else {
 #ifdef DEBUG
-    assert_check(_offset, _length);
+      assert_check(_offset, _length);
 #endif
+    }
     return m_buffer.get() + _offset;
   }
 
   template <ASSERT _assert = ASSERT::NO>
   uint8_t *data(const size_t _offset,
-                [[maybe_unused]] const size_t _length) noexcept {
+                [[maybe_unused]] const size_t _length)
+      noexcept(_assert == ASSERT::NO) {
     if constexpr (_assert == ASSERT::YES) {
       assert_check(_offset, _length);
     } else {
@@ -125,56 +131,56 @@ public:
   EBUFFER(MBUFFER &&_buffer) : MBUFFER(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  uint8_t get_byte(const size_t _offset) const noexcept {
+  uint8_t get_byte(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return *(this->template data<_assert>(_offset, 1));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept {
+  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_bytes(this->template data<_assert>(_offset, _length),
                                _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int16_t get_int16(const size_t _offset) const noexcept {
+  int16_t get_int16(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, int16_t>(
         this->template data<_assert>(_offset, sizeof(int16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint16_t get_uint16(const size_t _offset) const noexcept {
+  uint16_t get_uint16(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uint16_t>(
         this->template data<_assert>(_offset, sizeof(uint16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int32_t get_int32(const size_t _offset) const noexcept {
+  int32_t get_int32(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, int32_t>(
         this->template data<_assert>(_offset, sizeof(int32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint32_t get_uint32(const size_t _offset) const noexcept {
+  uint32_t get_uint32(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uint32_t>(
         this->template data<_assert>(_offset, sizeof(uint32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  double get_double(const size_t _offset) const noexcept {
+  double get_double(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_double<_endian>(
         this->template data<_assert>(_offset, sizeof(double)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string(const size_t _offset,
-                              const size_t _length) const noexcept {
+                              const size_t _length) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_string_trim(
         this->template data<_assert>(_offset, _length), _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string_untrim(const size_t _offset,
-                                     const size_t _length) const noexcept {
+                                     const size_t _length) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_string(this->template data<_assert>(_offset, _length),
                                 _length);
   }
@@ -195,13 +201,13 @@ public:
   BUFFER(MBUFFER &&_buffer) : EBUFFER<_endian>(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  integer_t get_integer(const size_t _offset) const noexcept {
+  integer_t get_integer(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, integer_t>(
         this->template data<_assert>(_offset, sizeof(integer_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uinteger_t get_uinteger(const size_t _offset) const noexcept {
+  uinteger_t get_uinteger(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uinteger_t>(
         this->template data<_assert>(_offset, sizeof(uinteger_t)));
   }
diff --git a/src/metadata.hpp b/src/metadata.hpp
index aec5658..8401cc2 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -218,7 +218,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void
   process_ROW_SIZE_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-                             Properties::Metadata *_metadata) const noexcept {
+                             Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_ROW_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     buf.assert_check(_subheader.offset + lcp_offset, 4);
@@ -243,7 +243,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const noexcept {
+      Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
@@ -266,7 +266,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_TEXT_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) noexcept {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_TEXT_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t length =
@@ -324,7 +324,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_NAME_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t offset_max =
@@ -344,7 +344,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_ATTRIBUTES_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -366,7 +366,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_FORMAT_AND_LABEL_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_FORMAT_AND_LABEL_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-- 
2.43.0


From 115eb0ce9d4a493942e9e34c1c458a2a80c9d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 10/30] fix: a name or attributes subheader shorter than one
 entry holds none

---
 src/metadata.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 8401cc2..be29858 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -327,10 +327,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += 8) {
+         offset + 12 + integer_size <= offset_end; offset += 8) {
       const size_t idx = buf.get_uint16(offset + 0);
       const size_t name_offset = buf.get_uint16(offset + 2);
       const size_t name_length = buf.get_uint16(offset + 4);
@@ -348,10 +347,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += integer_size + 8) {
+         offset + 12 + integer_size <= offset_end; offset += integer_size + 8) {
       const size_t column_data_offset = buf.get_uinteger(offset + 0);
       const size_t column_data_length = buf.get_uint32(offset + integer_size);
       const uint8_t column_data_type = buf.get_byte(offset + integer_size + 6);
-- 
2.43.0


From c10d7368b7abcebaafb751c75f337f256ede9c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 11/30] fix: a compressed row is not taken for metadata because
 of its first bytes

---
 src/metadata.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index be29858..b58f89e 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -161,6 +161,17 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
+    // A compressed row may start with any bytes, and any subheader may be
+    // shorter than a signature: both are no metadata
+    if (_subheader.length < integer_size ||
+        _subheader.compression == COMPRESSED_SUBHEADER_ID) {
+      if (DataSubHeader::check(_metadata, _subheader)) {
+        process_DATA_SUBHEADER(_subheader);
+        return true;
+      }
+      if (_subheader.length < integer_size)
+        return false;
+    }
     // Match the subheader signature to the correct processing function
     const auto subheader_signature =
         buf.get_bytes(_subheader.offset, integer_size);
-- 
2.43.0


From 3fea56aa7393c5dfcae5a2053d8f9ee6935a1731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 12/30] fix: a header or page length too small for its own
 fields is refused

---
 src/header.hpp   | 4 ++--
 src/metadata.hpp | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/header.hpp b/src/header.hpp
index 94cb3ef..8f9928e 100644
--- a/src/header.hpp
+++ b/src/header.hpp
@@ -92,8 +92,8 @@ struct READ_HEADER {
     }*/
 
     // Read the rest of the header
-    FMT_ASSERT(_header->header_length >= HEADER_CONSTANTS::HEADER_SIZE,
-               "Header is too big in set_header_length_and_read");
+    if (_header->header_length < HEADER_CONSTANTS::HEADER_SIZE + total_align)
+      EXCEPTION::header_too_short();
     if (!buf.read_stream(is,
                          _header->header_length - HEADER_CONSTANTS::HEADER_SIZE,
                          HEADER_CONSTANTS::HEADER_SIZE))
diff --git a/src/metadata.hpp b/src/metadata.hpp
index b58f89e..4633993 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -122,6 +122,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   std::vector<size_t> column_data_lengths;
   std::vector<Column::Type> column_data_types;
 
+  using READ_PAGE<_DataSource, _endian, _format>::header;
+  using READ_PAGE<_DataSource, _endian, _format>::page_bit_offset;
   using READ_PAGE<_DataSource, _endian, _format>::read_page;
   using READ_PAGE<_DataSource, _endian, _format>::process_page_subheaders;
   using READ_PAGE<_DataSource, _endian, _format>::current_page_header;
@@ -134,6 +136,10 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void set_metadata(Properties::Metadata *_metadata,
                     const Reader::PFILTER &_filter) {
+    // A page holds at least its own header
+    if (header->page_length < page_bit_offset + 8)
+      EXCEPTION::invalid_buffer_access(page_bit_offset, 8,
+                                       header->page_length);
     while (read_page()) {
       if (process_page(_metadata))
         break;
-- 
2.43.0


From 3cd7ea9fff7f88415f91b72edbd2e42f36b0a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 13/30] fix: rows outside their page and columns outside their
 row are refused

---
 src/data.hpp     | 3 +--
 src/metadata.hpp | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index 621cf29..f8d072a 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -188,8 +188,7 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
   BYTES extract_row_values(const size_t _offset, const size_t _length) const {
     D(spdlog::info("READ_DATA::extract_row_values({}, {})\n", _offset,
                    _length));
-    FMT_ASSERT(_offset + _length <= header->page_length,
-               "Accessing data outside the page");
+    buf.assert_check(_offset, _length);
     const auto values = buf.get_bytes(_offset, _length);
     if (_length < metadata->row_length) {
       return decompressor(values);
diff --git a/src/metadata.hpp b/src/metadata.hpp
index 4633993..0690685 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -449,6 +449,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto column_length =
           get_value("data_length", column_data_lengths, icol);
       const auto column_type = get_value("data_type", column_data_types, icol);
+      // The cells of the column must lie within the row
+      if (column_length > _metadata->row_length ||
+          column_offset > _metadata->row_length - column_length)
+        EXCEPTION::invalid_buffer_access(column_offset, column_length,
+                                         _metadata->row_length);
 
       bool column_type_not_supported = true;
       auto add_column = [&](auto &&formatter) {
-- 
2.43.0


From 53bd45d6b6bac9f3c0c626eb889e9c43f5952bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 14/30] fix: names, labels, formats and header texts keep their
 non-ASCII characters

---
 src/metadata.hpp | 14 +++-----------
 src/types.hpp    |  7 ++++++-
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 0690685..afecc40 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -324,17 +324,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto n = ct.size();
       _offset = std::min(_offset, n);
       _length = std::min(_length, n - _offset);
-      if (_length && std::isprint(ct[_offset])) {
-        while (_length && std::isspace(ct[_offset])) {
-          ++_offset;
-          --_length;
-        }
-        while (_length && (!std::isprint(ct[_offset + _length - 1]) ||
-                           std::isspace(ct[_offset + _length - 1]))) {
-          --_length;
-        }
-        return ct.substr(_offset, _length);
-      }
+      const auto p = reinterpret_cast<const uint8_t *>(ct.data()) + _offset;
+      if (_length && is_text(*p))
+        return std::string(get_string_trim(p, _length));
     }
     return {};
   }
diff --git a/src/types.hpp b/src/types.hpp
index f94f204..b035220 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -33,6 +33,11 @@ inline std::string_view get_string_trim_0(const uint8_t *_buf,
   return get_string(_buf, _length);
 }
 
+/// Everything but the control characters: text may be in any encoding
+inline bool is_text(const uint8_t _c) noexcept {
+  return _c >= 0x20 && _c != 0x7F;
+}
+
 inline std::string_view get_string_trim(const uint8_t *_buf,
                                         size_t _length) noexcept {
   size_t offset = 0;
@@ -40,7 +45,7 @@ inline std::string_view get_string_trim(const uint8_t *_buf,
     ++offset;
     --_length;
   }
-  while (_length && (!std::isprint(_buf[offset + _length - 1]) ||
+  while (_length && (!is_text(_buf[offset + _length - 1]) ||
                      std::isspace(_buf[offset + _length - 1]))) {
     --_length;
   }
-- 
2.43.0


From 9badd1e47db1676e1590ae5d55c4f27c1614ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 15/30] fix: a date outside the calendar is refused with an
 exception instead of ending the process

---
 src/formatters.hpp | 6 +++---
 src/types.hpp      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 27d0dbd..9c16854 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -153,7 +153,7 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
         DoubleFormatter<_endian>::get_number(_p));
   }
 
-  DATE get_date([[maybe_unused]] const void *_p) const noexcept {
+  DATE get_date([[maybe_unused]] const void *_p) const {
     return get_datetime(_p).date();
   }
 
@@ -174,12 +174,12 @@ struct DateFormatter : public DoubleFormatter<_endian> {
     D(spdlog::debug("DateTimeFormatter\n"));
   }
 
-  DATE get_date([[maybe_unused]] const void *_p) const noexcept {
+  DATE get_date([[maybe_unused]] const void *_p) const {
     return INTERNAL::get_date_from_epoch(
         DoubleFormatter<_endian>::get_number(_p));
   }
 
-  DATETIME get_datetime([[maybe_unused]] const void *_p) const noexcept {
+  DATETIME get_datetime([[maybe_unused]] const void *_p) const {
     return DATETIME(get_date(_p), {});
   }
 
diff --git a/src/types.hpp b/src/types.hpp
index b035220..1d34fb9 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -176,11 +176,11 @@ inline TIME get_time_from_epoch(const double _seconds) noexcept {
   return get_datetime_from_epoch(_seconds).time_of_day();
 }
 
-inline DATE get_date_from_epoch_seconds(const double _seconds) noexcept {
+inline DATE get_date_from_epoch_seconds(const double _seconds) {
   return get_datetime_from_epoch(_seconds).date();
 }
 
-inline DATE get_date_from_epoch_days(const double _days) noexcept {
+inline DATE get_date_from_epoch_days(const double _days) {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
   if (std::isnan(_days))
@@ -189,7 +189,7 @@ inline DATE get_date_from_epoch_days(const double _days) noexcept {
   return (start + days(std::lround(_days))).date();
 }
 
-inline DATE get_date_from_epoch(const double _t) noexcept {
+inline DATE get_date_from_epoch(const double _t) {
   const auto x = get_date_from_epoch_days(_t);
   if (x.is_not_a_date())
     return get_date_from_epoch_seconds(_t);
-- 
2.43.0


From d010722e8b162c310c9d8313de5271cd752c81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 16/30] fix: the text of a time that is no time of day does not
 leave its buffer

---
 src/types.cpp | 40 ++++++++++------------------------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/src/types.cpp b/src/types.cpp
index b77f595..f02e315 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -13,48 +13,28 @@
 namespace cppsas7bdat {
 
 std::string to_string(DATETIME _x) {
-  char szBuffer[32];
-  size_t size{0};
   const auto d = _x.date();
   const auto t = _x.time_of_day();
   if (t.fractional_seconds()) {
-    auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer),
-                              "{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}",
-                              d.year(), d.month(), d.day(), t.hours(),
-                              t.minutes(), t.seconds(), t.fractional_seconds());
-    size = r.size;
-  } else {
-    auto r = fmt::format_to_n(
-        szBuffer, sizeof(szBuffer), "{:04}-{:02}-{:02} {:02}:{:02}:{:02}",
-        d.year(), d.month(), d.day(), t.hours(), t.minutes(), t.seconds());
-    size = r.size;
+    return fmt::format("{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}", d.year(),
+                       d.month(), d.day(), t.hours(), t.minutes(), t.seconds(),
+                       t.fractional_seconds());
   }
-  return std::string(szBuffer, size);
+  return fmt::format("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", d.year(), d.month(),
+                     d.day(), t.hours(), t.minutes(), t.seconds());
 }
 
 std::string to_string(DATE _x) {
-  char szBuffer[16];
-  size_t size{0};
-  auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer), "{:04}-{:02}-{:02}",
-                            _x.year(), _x.month(), _x.day());
-  size = r.size;
-  return std::string(szBuffer, size);
+  return fmt::format("{:04}-{:02}-{:02}", _x.year(), _x.month(), _x.day());
 }
 
 std::string to_string(TIME _x) {
-  char szBuffer[16];
-  size_t size{0};
   if (_x.fractional_seconds()) {
-    auto r = fmt::format_to_n(
-        szBuffer, sizeof(szBuffer), "{:02}:{:02}:{:02}.{:06}", _x.hours(),
-        _x.minutes(), _x.seconds(), _x.fractional_seconds());
-    size = r.size;
-  } else {
-    auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer), "{:02}:{:02}:{:02}",
-                              _x.hours(), _x.minutes(), _x.seconds());
-    size = r.size;
+    return fmt::format("{:02}:{:02}:{:02}.{:06}", _x.hours(), _x.minutes(),
+                       _x.seconds(), _x.fractional_seconds());
   }
-  return std::string(szBuffer, size);
+  return fmt::format("{:02}:{:02}:{:02}", _x.hours(), _x.minutes(),
+                     _x.seconds());
 }
 
 std::string_view to_string(const Endian _x) {
-- 
2.43.0


From 2d9a1a314e563e91e38856bde3389f95b3d61c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:53 +0000
Subject: [PATCH 17/30] fix: csv never writes over an input under another name

---
 apps/cppsas7bdat-ci.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 49707a8..211bac6 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -42,18 +42,21 @@ void process_print(const std::string& _filename, long _n)
   }
 }
 
-std::string get_csv_filename(const std::string& _filename)
+std::string get_csv_filename(const std::string& _filename, const std::vector<std::string>& _inputs)
 {
   auto csv_filename = std::filesystem::path(_filename).replace_extension(".csv").string();
-  // The input must never be overwritten
-  if(csv_filename == _filename)
-    throw std::runtime_error("The output would overwrite the input: " + _filename);
+  // No input must ever be overwritten, whatever name it goes by
+  for(const auto& input: _inputs) {
+    std::error_code ec;
+    if(csv_filename == input || std::filesystem::equivalent(csv_filename, input, ec))
+      throw std::runtime_error("The output would overwrite the input: " + input);
+  }
   return csv_filename;
 }
 
-void process_csv(const std::string& _filename)
+void process_csv(const std::string& _filename, const std::vector<std::string>& _inputs)
 {
-  const auto csv_filename = get_csv_filename(_filename);
+  const auto csv_filename = get_csv_filename(_filename, _inputs);
   //std::ofstream csv_os(csv_filename.c_str());
   //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
   cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_filename.c_str()));
@@ -86,7 +89,7 @@ int main(const int argc, char* argv[])
   } else if(args["csv"].asBool()) {
     const auto files = args["<file>"].asStringList();
     for(const auto& file: files) {
-      process_csv(file);
+      process_csv(file, files);
     }
   } else if(args["null"].asBool()) {
     const auto files = args["<file>"].asStringList();
-- 
2.43.0


From b095dc9f08c71484f925d8428919f2f87856a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 18/30] fix: cppsas7bdat-ci writes its messages to standard
 error, not among the data

---
 apps/CMakeLists.txt     | 1 +
 apps/cppsas7bdat-ci.cpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/apps/CMakeLists.txt b/apps/CMakeLists.txt
index 21bc11d..470f1d2 100644
--- a/apps/CMakeLists.txt
+++ b/apps/CMakeLists.txt
@@ -11,6 +11,7 @@ add_executable(cppsas7bdat-ci
 target_link_libraries(cppsas7bdat-ci
   PRIVATE docopt_s
   PRIVATE fmt::fmt
+  PRIVATE spdlog::spdlog
   PRIVATE project_options
   PUBLIC cppsas7bdat
   )
diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 211bac6..4406388 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -13,6 +13,8 @@
 #include <cppsas7bdat/sink/csv.hpp>
 #include <cppsas7bdat/sink/null.hpp>
 #include <docopt/docopt.h>
+#include <spdlog/spdlog.h>
+#include <spdlog/sinks/stdout_sinks.h>
 #include <filesystem>
 #include <stdexcept>
 
@@ -71,6 +73,9 @@ void process_null(const std::string& _filename)
 
 int main(const int argc, char* argv[])
 {
+  // Standard output is for the data only
+  spdlog::set_default_logger(spdlog::stderr_logger_mt("cppsas7bdat-ci"));
+
   std::string version = fmt::format("CPP SAS7BDAT file reader {}", cppsas7bdat::getVersion());
   std::map<std::string, docopt::value> args = docopt::docopt(USAGE,
 							     { std::next(argv), std::next(argv, argc) },
-- 
2.43.0


From 1601001e03b3bac0ef3d3a174fb3ec07e969a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 19/30] fix: a csv file sink reports what it cannot write

---
 include/cppsas7bdat/sink/csv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 34cb3de..caa251e 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -93,7 +93,10 @@ struct csv {
 struct _ofstream {
   std::ofstream ofs;
 
-  explicit _ofstream(const char *_pcszfilename) : ofs(_pcszfilename) {}
+  explicit _ofstream(const char *_pcszfilename) : ofs(_pcszfilename) {
+    // Nobody else can see the stream: what cannot be written is reported
+    ofs.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+  }
 };
 
 struct csv_ofstream : public _ofstream, public csv {
@@ -104,6 +107,8 @@ struct csv_ofstream : public _ofstream, public csv {
       : _ofstream(std::move(_other)), csv(ofs) {
     columns = std::move(_other.columns);
   }
+
+  void end_of_data() { ofs.flush(); }
 };
 
 } // namespace detail
-- 
2.43.0


From a4dc922b670b9cffbcaa1c1fb7ad652fcee73f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 20/30] fix: cppsas7bdat-ci print fails when standard output
 cannot be written

---
 apps/cppsas7bdat-ci.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 4406388..2806753 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -102,5 +102,6 @@ int main(const int argc, char* argv[])
       process_null(file);
     }
   }
-  return 0;
+  // What could not be written is no success
+  return std::cout.flush() ? 0 : 1;
 }
-- 
2.43.0


From 2c72445386983915cc7462e63cc0e37fc5b3a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 21/30] fix: python sinks can be told of the end of the data
 more than once, and _cpp does not outlive the reader

---
 python/pycppsas7bdat/cpp/sink.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2782f5d..eed5371 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -33,8 +33,10 @@ struct SinkBase : public boost::noncopyable {
 
   SinkBase(PyObject *_self) : self(_self) { Py_INCREF(self); }
   ~SinkBase() {
-    if (self)
+    if (self) {
+      del_cpp_attr();
       Py_DECREF(self);
+    }
   }
   SinkBase(SinkBase &&_rhs) noexcept : self(_rhs.self) { _rhs.self = nullptr; }
 
@@ -45,7 +47,21 @@ struct SinkBase : public boost::noncopyable {
     PyObject_SetAttrString(self, "_cpp", po);
   }
 
-  void del_cpp_attr() { PyObject_DelAttrString(self, "_cpp"); }
+  // Called when this object goes: the attribute must not outlive it.  It may
+  // belong to another reader by now, and an error may be on its way to python.
+  void del_cpp_attr() {
+    PyObject *type, *value, *traceback;
+    PyErr_Fetch(&type, &value, &traceback);
+    PyObject *po = PyObject_GetAttrString(self, "_cpp");
+    if (po) {
+      boost::python::extract<SinkBase *> cpp(po);
+      if (cpp.check() && cpp() == this)
+        PyObject_DelAttrString(self, "_cpp");
+      Py_DECREF(po);
+    }
+    PyErr_Clear();
+    PyErr_Restore(type, value, traceback);
+  }
 
   void set_properties([
       [maybe_unused]] const cppsas7bdat::Properties &_properties) {
@@ -118,7 +134,6 @@ struct Sink : public SinkBase {
   }
 
   void end_of_data() override {
-    del_cpp_attr();
     // std::cerr << "Sink::end_of_data()" << std::endl;
   }
 
@@ -269,7 +284,6 @@ struct SinkChunk : public SinkBase {
   }
 
   void end_of_data() override {
-    del_cpp_attr();
     // std::cerr << "SinkChunk::end_of_data()" << std::endl;
     flush();
   }
@@ -404,7 +418,6 @@ public:
   void flush() override {}
 
   void end_of_data() override {
-    del_cpp_attr();
     // std::cerr << "SinkData::end_of_data()" << std::endl;
     if (idata) {
       boost::python::dict d;
-- 
2.43.0


From 357bfab37c503be7d32428d38209d0c25a6859a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 22/30] fix: the first row of a python chunk is the first row
 it holds, also after skip

---
 python/pycppsas7bdat/cpp/sink.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index eed5371..06abad0 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -277,6 +277,8 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+    if (idata == 0)
+      istartrow = _irow;
     iendrow = _irow;
     ++idata;
     if (idata == size)
@@ -392,7 +394,6 @@ struct SinkChunk : public SinkBase {
 
   void clear_values() {
     idata = 0;
-    istartrow = iendrow + 1;
     clear_values(col_numbers);
     clear_values(col_integers);
     clear_values(col_datetimes);
-- 
2.43.0


From a55522eb653a4832e9e9909540b977f59dcf2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 23/30] fix: the python whole data sink keeps the rows it has
 already given when more are read

---
 python/pycppsas7bdat/cpp/sink.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 06abad0..e616d19 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -407,6 +407,8 @@ protected:
 };
 
 class SinkData : public SinkChunk {
+  size_t igiven{0};
+
 public:
   SinkData(PyObject *_self) : SinkChunk(_self, 0) {}
 
@@ -420,11 +422,12 @@ public:
 
   void end_of_data() override {
     // std::cerr << "SinkData::end_of_data()" << std::endl;
-    if (idata) {
+    // All the rows read so far, also when some were already given
+    if (idata != igiven) {
       boost::python::dict d;
       set_dict_values(d);
       call_method<void>(self, "set_data", d);
-      clear_values();
+      igiven = idata;
     }
   }
 };
-- 
2.43.0


From 6290d9854802bdd21f4a507ccd41854dc86795e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 24/30] fix: a python row has one value for every column, also
 for columns of unknown type

---
 python/pycppsas7bdat/cpp/sink.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index e616d19..3f1a67a 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -109,6 +109,9 @@ struct Sink : public SinkBase {
 
     for (const auto &column : columns) {
       switch (column.type) {
+      case cppsas7bdat::Column::Type::unknown:
+        l.append(boost::python::object());
+        break;
       case cppsas7bdat::Column::Type::string:
         l.append(to_str(column.get_string(_p)));
         break;
-- 
2.43.0


From 293ce6988c707cec1ec1646fc1687bffa79fe1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 25/30] fix: python properties keep the reader they belong to

---
 python/pycppsas7bdat/cpp/reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index 2dc87a2..81051fc 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -96,7 +96,7 @@ void bind_reader() {
                                          arg("exclude") = object())))
       .add_property("current_row_index", &Reader::current_row_index)
       .def("properties", &Reader::properties,
-           return_value_policy<reference_existing_object>())
+           return_internal_reference<>())
       .def("read_all", &Reader::read_all)
       .def("read_row", &Reader::read_row)
       .def("read_rows", &Reader::read_rows)
-- 
2.43.0


From 192368acd9891b3a66404818922ddf7be4d7eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 26/30] fix: df of the bundled python sinks shows all the rows
 read so far, and an empty table when there are none

---
 python/pycppsas7bdat/sink.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/pycppsas7bdat/sink.py b/python/pycppsas7bdat/sink.py
index fce9c63..f7557b1 100644
--- a/python/pycppsas7bdat/sink.py
+++ b/python/pycppsas7bdat/sink.py
@@ -25,6 +25,7 @@ class SinkByRow(SinkBase):
 
     def push_row(self, irow, row):
         self._rows.append(row)
+        self._df = None
 
     @property
     def df(self):
@@ -43,12 +44,15 @@ class SinkByChunk(SinkBase):
     def push_rows(self, istartrow, iendrow, rows):
         rows = pd.DataFrame(rows, columns = self.columns, copy=False)
         self._rows.append(rows)
+        self._df = None
 
     @property
     def df(self):
-        if self._df is None:
-            self._cpp_flush_sink()
+        self._cpp_flush_sink()
+        if self._df is None and self._rows:
             self._df = pd.concat(self._rows)
+        if self._df is None:
+            return pd.DataFrame(columns = self.columns)
         return self._df
 
 class SinkWholeData(SinkBase):
@@ -61,6 +65,7 @@ class SinkWholeData(SinkBase):
 
     @property
     def df(self):
+        self._cpp_flush_sink()
         if self._df is None:
-            self._cpp_flush_sink()
+            return pd.DataFrame(columns = self.columns)
         return self._df
-- 
2.43.0


From e241cacde4b165c9413c33e576bf477dc98eef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 27/30] fix: a row given to an R sink keeps its values when the
 next row is read

---
 R/CPPSAS7BDAT/src/sink.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink.hpp b/R/CPPSAS7BDAT/src/sink.hpp
index 8e17e2e..40bfe7b 100644
--- a/R/CPPSAS7BDAT/src/sink.hpp
+++ b/R/CPPSAS7BDAT/src/sink.hpp
@@ -62,6 +62,9 @@ struct Sink : public SinkBase {
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     const size_t ncols = columns.size();
+    // The previous row now belongs to R
+    row = Rcpp::List(ncols);
+    row.names() = col_names;
     for (size_t icol = 0; icol < ncols; ++icol) {
       const auto &column = columns[icol];
       switch (column.type) {
@@ -97,8 +100,6 @@ protected:
     for (size_t icol = 0; icol < ncols; ++icol) {
       col_names[icol] = columns[icol].name;
     }
-    row = Rcpp::List(ncols);
-    row.names() = col_names;
   }
 
   cppsas7bdat::COLUMNS columns;
-- 
2.43.0


From 409f21d313753156bb26d87ac1ae2a11ee27e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 28/30] fix: R chunks and data keep their values, and have room
 for what is read after they were given

---
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 14 +++++++++-----
 R/CPPSAS7BDAT/src/sink_chunk.hpp      |  9 ++++-----
 R/CPPSAS7BDAT/src/sink_data.hpp       |  2 +-
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 4b44bb4..7e466d4 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -162,9 +162,14 @@ protected:
     return v;
   }
 
+  // What is given to R belongs to R: it has its own list, and vectors of its
+  // own unless they are full.
   void set_values() {
     size_t icol = {0};
 
+    rows = Rcpp::List(col_names.size());
+    rows.names() = col_names;
+
     auto set_values = [&](const auto &_columns) {
       for (const auto &column : _columns) {
         if (idata != column.size()) {
@@ -175,8 +180,9 @@ protected:
       }
     };
 
-    if (row_index.size() != idata)
-      row_index = resize_vector(row_index, idata);
+    rows_index = (size_t)row_index.size() != idata
+                     ? resize_vector(row_index, idata)
+                     : row_index;
     set_values(col_numbers);
     set_values(col_integers);
     set_values(col_datetimes);
@@ -197,13 +203,11 @@ protected:
     add_col_name(columns.dates);
     add_col_name(columns.times);
     add_col_name(columns.strings);
-
-    rows = Rcpp::List(col_names.size());
-    rows.names() = col_names;
   }
 
   cppsas7bdat::Columns columns;
   Rcpp::StringVector col_names;
+  COL_INTEGERS rows_index;
   Rcpp::List rows;
 };
 
diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index e61652c..574f889 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -26,10 +26,6 @@ struct SinkChunk : public SinkByColumns {
     iendrow = _irow;
     if (idata == size) {
       flush();
-      // Check if the were starting the last chunk => resize to a smaller chunk
-      if (istartrow + size > ilastrow && istartrow < ilastrow) {
-        prepare_values(ilastrow - istartrow);
-      }
     }
   }
 
@@ -39,9 +35,12 @@ struct SinkChunk : public SinkByColumns {
     if (istartrow > iendrow || idata == 0)
       return;
     SinkByColumns::set_values();
-    f_push_rows(row_index, rows);
     idata = 0;
     istartrow = iendrow + 1;
+    // The next chunk has new vectors, a smaller number if it is the last one
+    const size_t nleft = istartrow < ilastrow ? ilastrow - istartrow : 0;
+    prepare_values(size ? std::min(size, nleft) : nleft);
+    f_push_rows(rows_index, rows);
   }
 
 protected:
diff --git a/R/CPPSAS7BDAT/src/sink_data.hpp b/R/CPPSAS7BDAT/src/sink_data.hpp
index f33b6ad..cb88849 100644
--- a/R/CPPSAS7BDAT/src/sink_data.hpp
+++ b/R/CPPSAS7BDAT/src/sink_data.hpp
@@ -23,7 +23,7 @@ struct SinkData : public SinkByColumns {
     if (idata == 0)
       return;
     SinkByColumns::set_values();
-    f_set_data(row_index, rows);
+    f_set_data(rows_index, rows);
   }
 
 protected:
-- 
2.43.0


From 8e994e34caea29f10e5268461cd1673a2d38da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 29/30] fix: the R sinks use the properties the reader gives
 them

---
 R/CPPSAS7BDAT/R/sink.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index 318b96c..05d9e4d 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -13,8 +13,8 @@ SinkByRow <- R6Class("SinkByRow",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
-	    self$df = data.frame(matrix(NA, nrow=properties$metadata$row_count, ncol=properties$metadata$column_count))
+	    self$columns = names(properties$columns);
+	    self$df = data.frame(matrix(NA, nrow=properties$row_count, ncol=length(self$columns)))
 	    names(self$df) = self$columns
     },
     push_row = function(irow, row) {
@@ -36,7 +36,7 @@ SinkByChunk <- R6Class("SinkByChunk",
     },
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     push_rows = function(row_index, rows) {
 	    rows <- as.data.frame(rows);
@@ -54,7 +54,7 @@ SinkWholeData <- R6Class("SinkWholeData",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     set_data = function(row_index, data) {
 	    self$df <- data;
-- 
2.43.0


From 5168847be2bbd3f6efc11afd09d26639da4a622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 30/30] fix: an R property of a file without a creation or
 modification date is NA

---
 R/CPPSAS7BDAT/src/wrap_properties.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/wrap_properties.hpp b/R/CPPSAS7BDAT/src/wrap_properties.hpp
index 36733f3..744b22a 100644
--- a/R/CPPSAS7BDAT/src/wrap_properties.hpp
+++ b/R/CPPSAS7BDAT/src/wrap_properties.hpp
@@ -75,12 +75,17 @@ SEXP wrap_properties(const cppsas7bdat::Properties &_properties) {
     return columns;
   }();
 
+  auto date = [](const DATETIME &_x) {
+    return _x.is_special() ? Rcpp::CharacterVector::create(NA_STRING)
+                           : Rcpp::CharacterVector::create(to_string(_x));
+  };
+
   return Rcppsas7bdat::ListBuilder()
       .add("endianness",
            std::string(to_string(_properties /*.header*/.endianness)))
       .add("platform", std::string(to_string(_properties /*.header*/.platform)))
-      .add("date_created", to_string(_properties /*.header*/.date_created))
-      .add("date_modified", to_string(_properties /*.header*/.date_modified))
+      .add("date_created", date(_properties /*.header*/.date_created))
+      .add("date_modified", date(_properties /*.header*/.date_modified))
       .add("dataset_name", _properties /*.header*/.dataset_name)
       .add("encoding", _properties /*.header*/.encoding)
       .add("file_type", _properties /*.header*/.file_type)
-- 
2.43.0

