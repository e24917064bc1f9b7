From 0566d3777f948682273e702f4068b39d7af06704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 01/64] Add guarded knobs for internal buffer sizes (MLIO_SIM)

---
 src/mlio/csv_reader.cc                        |  3 +-
 src/mlio/detail/sim_hooks.h                   | 28 +++++++++++++++++++
 src/mlio/instance.cc                          |  3 +-
 .../detail/default_chunk_reader.h             |  3 +-
 src/mlio/recordio_protobuf_reader.cc          |  3 +-
 src/mlio/streams/gzip_inflate_stream.cc       |  3 +-
 src/mlio/streams/utf8_input_stream.cc         |  3 +-
 7 files changed, 40 insertions(+), 6 deletions(-)
 create mode 100644 src/mlio/detail/sim_hooks.h

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 3177993..9824d76 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -31,6 +31,7 @@
 #include "mlio/data_reader.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/sim_hooks.h"
 #include "mlio/example.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
@@ -421,7 +422,7 @@ Intrusive_ptr<Example> Csv_reader::decode(const Instance_batch &batch) const
 
     std::size_t num_instances = batch.instances().size();
 
-    constexpr std::size_t cut_off = 10'000'000;
+    const std::size_t cut_off = MLIO_SIM_KNOB(parallel_decode_cut_off, 10'000'000);
 
     bool should_run_serial =
         // If bad example handling mode is pad, we cannot parallelize
diff --git a/src/mlio/detail/sim_hooks.h b/src/mlio/detail/sim_hooks.h
new file mode 100644
index 0000000..59af15d
--- /dev/null
+++ b/src/mlio/detail/sim_hooks.h
@@ -0,0 +1,28 @@
+/*
+ * Copyright 2019-2020 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License"). You
+ * may not use this file except in compliance with the License. A copy of
+ * the License is located at
+ *
+ *      http://aws.amazon.com/apache2.0/
+ *
+ * or in the "license" file accompanying this file. This file is
+ * distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF
+ * ANY KIND, either express or implied. See the License for the specific
+ * language governing permissions and limitations under the License.
+ */
+
+#pragma once
+
+#include <cstddef>
+
+// Lets a simulator built with MLIO_SIM shrink the internal buffer sizes
+// and thresholds, so that their boundaries can be reached with small
+// inputs. Without MLIO_SIM a knob is just its default value.
+#ifdef MLIO_SIM
+extern "C" std::size_t mlio_sim_knob(const char *name, std::size_t default_value);
+#define MLIO_SIM_KNOB(name, default_value) mlio_sim_knob(#name, default_value)
+#else
+#define MLIO_SIM_KNOB(name, default_value) (default_value)
+#endif
diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 16a87fc..3248e3a 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -22,6 +22,7 @@
 
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/sim_hooks.h"
 #include "mlio/intrusive_ptr.h"
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/memory/memory_block.h"
@@ -96,7 +97,7 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
                 block = memory_allocator().allocate(stream.size());
             }
             else {
-                block = memory_allocator().allocate(0x100000);  // 1MiB
+                block = memory_allocator().allocate(MLIO_SIM_KNOB(instance_buffer, 0x100000));  // 1MiB
             }
         }
 
diff --git a/src/mlio/record_readers/detail/default_chunk_reader.h b/src/mlio/record_readers/detail/default_chunk_reader.h
index 2d6c1a6..ca4481f 100644
--- a/src/mlio/record_readers/detail/default_chunk_reader.h
+++ b/src/mlio/record_readers/detail/default_chunk_reader.h
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <utility>
 
+#include "mlio/detail/sim_hooks.h"
 #include "mlio/intrusive_ptr.h"
 #include "mlio/memory/memory_block.h"
 #include "mlio/memory/memory_slice.h"
@@ -51,7 +52,7 @@ public:
 
 private:
     Intrusive_ptr<Input_stream> stream_;
-    std::size_t next_chunk_size_ = 0x200'0000;  // 32 MiB
+    std::size_t next_chunk_size_ = MLIO_SIM_KNOB(chunk_size, 0x200'0000);  // 32 MiB
     Intrusive_ptr<Mutable_memory_block> chunk_{};
     bool eof_{};
 };
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index f9a5d4b..814eed6 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -29,6 +29,7 @@
 #include "mlio/cpu_array.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/detail/protobuf/recordio_protobuf.pb.h"
+#include "mlio/detail/sim_hooks.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
 #include "mlio/logger.h"
@@ -268,7 +269,7 @@ Intrusive_ptr<Example> Recordio_protobuf_reader::decode(const Instance_batch &ba
 
     std::size_t num_instances = batch.instances().size();
 
-    constexpr std::size_t cut_off = 10'000'000;
+    const std::size_t cut_off = MLIO_SIM_KNOB(parallel_decode_cut_off, 10'000'000);
 
     bool should_run_serial =
         // If we have any sparse features, we cannot decode the example
diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index a89b3d6..00c9918 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -17,6 +17,7 @@
 
 #include <utility>
 
+#include "mlio/detail/sim_hooks.h"
 #include "mlio/streams/detail/zlib.h"
 #include "mlio/streams/input_stream.h"
 #include "mlio/streams/stream_error.h"
@@ -44,7 +45,7 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
     }
 
     if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(0x8'0000);  // 512 KiB
+        buffer_ = inner_->read(MLIO_SIM_KNOB(inflate_buffer, 0x8'0000));  // 512 KiB
 
         // Make sure to reset the position before checking whether we
         // reached the end of the stream; otherwise the function won't
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index ba3b80a..4ee2ba3 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -20,6 +20,7 @@
 
 #include <fmt/format.h>
 
+#include "mlio/detail/sim_hooks.h"
 #include "mlio/logger.h"
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/streams/detail/iconv.h"
@@ -116,7 +117,7 @@ Utf8_input_stream::Utf8_input_stream(Intrusive_ptr<Input_stream> inner, Text_enc
 
     converter_ = std::make_unique<Iconv_desc>(std::move(encoding));
 
-    buffer_ = memory_allocator().allocate(0x200'0000);  // 32 MiB
+    buffer_ = memory_allocator().allocate(MLIO_SIM_KNOB(utf8_buffer, 0x200'0000));  // 32 MiB
 
     buffer_pos_ = buffer_->begin();
     buffer_end_ = buffer_->end();
-- 
2.43.0


From e4e50f897ac1d45336c22110997992fb8c6a34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 02/64] fix: don't read past the end of a chunk when splitting
 text lines

read_line dereferenced the iterator one past the end of the chunk and
treated a carriage return at the end of a chunk as a complete line end,
which turned a CR-LF pair split across two chunks into an extra blank line.
---
 src/mlio/record_readers/detail/text_line.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 82de5a4..9e3d6b6 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -47,14 +47,21 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto pos = chars.begin();
 
-    for (auto chr = *pos; pos < chars.end(); ++pos, chr = *pos) {
-        if (chr == '\n') {
+    for (; pos < chars.end(); ++pos) {
+        if (*pos == '\n') {
             break;
         }
 
-        if (chr == '\r') {
+        if (*pos == '\r') {
             auto next_pos = pos + 1;
 
+            // If the chunk ends with a carriage, we cannot tell whether
+            // it is followed by a new-line character until we read the
+            // next chunk.
+            if (next_pos == chars.end() && ignore_leftover) {
+                return {};
+            }
+
             // Check if we have a new line with a new-line character and
             // make sure that we eat the carriage in such case.
             if (next_pos < chars.end() && *next_pos == '\n') {
-- 
2.43.0


From 963e861debaba3e3680114ad2efb16a87d26ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 03/64] fix: don't report end of stream while inflating without
 output

Gzip_inflate_stream::read returned zero, which means end of stream, when
the consumed input (e.g. a header or trailer) produced no output, silently
truncating the data.
---
 src/mlio/streams/gzip_inflate_stream.cc | 42 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index 00c9918..dbeb470 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -44,30 +44,36 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
         return 0;
     }
 
-    if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(MLIO_SIM_KNOB(inflate_buffer, 0x8'0000));  // 512 KiB
-
-        // Make sure to reset the position before checking whether we
-        // reached the end of the stream; otherwise the function won't
-        // behave correctly if called a second time.
-        buffer_pos_ = buffer_.begin();
+    auto out = destination;
 
-        if (buffer_.empty()) {
-            if (!inflater_->eof()) {
-                throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
+    // Consuming input does not necessarily produce output (e.g. a gzip
+    // header); as returning zero means end of stream, we have to continue
+    // until we have some output.
+    while (out.size() == destination.size()) {
+        if (buffer_pos_ == buffer_.end()) {
+            buffer_ = inner_->read(MLIO_SIM_KNOB(inflate_buffer, 0x8'0000));  // 512 KiB
+
+            // Make sure to reset the position before checking whether we
+            // reached the end of the stream; otherwise the function won't
+            // behave correctly if called a second time.
+            buffer_pos_ = buffer_.begin();
+
+            if (buffer_.empty()) {
+                if (!inflater_->eof()) {
+                    throw Inflate_error{
+                        "The zlib stream contains invalid or incomplete deflate data."};
+                }
+
+                return 0;
             }
-
-            return 0;
         }
-    }
 
-    Memory_span inp{buffer_pos_, buffer_.end()};
+        Memory_span inp{buffer_pos_, buffer_.end()};
 
-    auto out = destination;
-
-    inflater_->inflate(inp, out);
+        inflater_->inflate(inp, out);
 
-    buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+        buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+    }
 
     return destination.size() - out.size();
 }
-- 
2.43.0


From 42f987e536fb202560ec9410a0d809b189136ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 04/64] fix: strip the UTF-8 BOM only at the start of a text
 stream

Text_record_reader removed the three bytes from the beginning of every
record (and more than once if the record spanned chunks).
---
 include/mlio/record_readers/text_record_reader.h |  2 ++
 src/mlio/record_readers/text_record_reader.cc    | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/mlio/record_readers/text_record_reader.h b/include/mlio/record_readers/text_record_reader.h
index a8b8da1..bd58700 100644
--- a/include/mlio/record_readers/text_record_reader.h
+++ b/include/mlio/record_readers/text_record_reader.h
@@ -52,6 +52,8 @@ private:
 
     MLIO_HIDDEN
     static bool skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept;
+
+    bool bom_checked_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/text_record_reader.cc b/src/mlio/record_readers/text_record_reader.cc
index 66e6a2f..c0e815b 100644
--- a/src/mlio/record_readers/text_record_reader.cc
+++ b/src/mlio/record_readers/text_record_reader.cc
@@ -35,11 +35,17 @@ std::optional<Record> Text_record_reader::decode_record(Memory_slice &chunk, boo
         return {};
     }
 
-    if (skip_utf8_bom(chunk, ignore_leftover)) {
-        return decode_text_record(chunk, ignore_leftover);
+    // A BOM has a meaning only at the beginning of the stream; anywhere
+    // else it is part of the data.
+    if (!bom_checked_) {
+        if (!skip_utf8_bom(chunk, ignore_leftover)) {
+            return {};
+        }
+
+        bom_checked_ = true;
     }
 
-    return {};
+    return decode_text_record(chunk, ignore_leftover);
 }
 
 bool Text_record_reader::skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept
-- 
2.43.0


From 86f9c4dcbce242ce5d53bdd3d558f298a767d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 05/64] fix: repeat schema inference errors until the data
 reader is reset

A failed attempt to infer the schema leaves the record reader in the
middle of a chunk; the next read continued from there and returned
garbage or accessed freed memory.
---
 include/mlio/parallel_data_reader.h |  1 +
 src/mlio/parallel_data_reader.cc    | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/mlio/parallel_data_reader.h b/include/mlio/parallel_data_reader.h
index db37233..cf0c86e 100644
--- a/include/mlio/parallel_data_reader.h
+++ b/include/mlio/parallel_data_reader.h
@@ -120,6 +120,7 @@ private:
     std::exception_ptr exception_ptr_{};
     std::atomic_size_t num_bytes_read_{};
     Intrusive_ptr<const Schema> schema_{};
+    std::exception_ptr schema_error_{};
 };
 
 /// @}
diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 2a16aea..0a7e4a0 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -287,7 +287,20 @@ void Parallel_data_reader::ensure_schema_inferred()
         return;
     }
 
-    schema_ = infer_schema(reader_->peek_instance());
+    // The underlying readers cannot resume after a failure; keep raising
+    // the same error until the reader gets reset.
+    if (schema_error_) {
+        std::rethrow_exception(schema_error_);
+    }
+
+    try {
+        schema_ = infer_schema(reader_->peek_instance());
+    }
+    catch (...) {
+        schema_error_ = std::current_exception();
+
+        throw;
+    }
 }
 
 Intrusive_ptr<const Schema> Parallel_data_reader::read_schema()
@@ -311,6 +324,8 @@ void Parallel_data_reader::reset() noexcept
 
     exception_ptr_ = nullptr;
 
+    schema_error_ = nullptr;
+
     num_bytes_read_ = 0;
 
     Data_reader_base::reset();
-- 
2.43.0


From 8ae51f021ded6332b2268a0afedefd0e0e3ef0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 06/64] fix: don't use a stale chunk after a failed stream read

When the stream raised an error in the middle of a fill, the chunk
reader had already moved or released the buffer the record reader was
still pointing to. The next read accessed freed memory or skipped data.
The record reader now repeats the error.
---
 .../mlio/record_readers/stream_record_reader.h |  2 ++
 .../record_readers/stream_record_reader.cc     | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/mlio/record_readers/stream_record_reader.h b/include/mlio/record_readers/stream_record_reader.h
index f813f99..63cd720 100644
--- a/include/mlio/record_readers/stream_record_reader.h
+++ b/include/mlio/record_readers/stream_record_reader.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <exception>
 #include <memory>
 #include <optional>
 
@@ -74,6 +75,7 @@ private:
 
     std::unique_ptr<detail::Chunk_reader> chunk_reader_;
     Memory_slice chunk_{};
+    std::exception_ptr exception_ptr_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/stream_record_reader.cc b/src/mlio/record_readers/stream_record_reader.cc
index 2775635..b2e4f9e 100644
--- a/src/mlio/record_readers/stream_record_reader.cc
+++ b/src/mlio/record_readers/stream_record_reader.cc
@@ -44,6 +44,12 @@ Stream_record_reader::Stream_record_reader(Intrusive_ptr<Input_stream> stream)
 
 std::optional<Record> Stream_record_reader::read_record_core()
 {
+    // A failed read might have left the chunk in an undefined state;
+    // there is no way to continue from there.
+    if (exception_ptr_) {
+        std::rethrow_exception(exception_ptr_);
+    }
+
     std::optional<Record> record{};
 
     while (true) {
@@ -52,7 +58,17 @@ std::optional<Record> Stream_record_reader::read_record_core()
             break;
         }
 
-        chunk_ = chunk_reader_->read_chunk(chunk_);
+        try {
+            chunk_ = chunk_reader_->read_chunk(chunk_);
+        }
+        catch (...) {
+            exception_ptr_ = std::current_exception();
+
+            chunk_ = {};
+
+            throw;
+        }
+
         if (chunk_.empty()) {
             break;
         }
-- 
2.43.0


From 4dda3e001f91d31b97c7f54694c5db1b0eb14081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 07/64] fix: pad the last example if its handling is pad_warn

---
 src/mlio/instance_batch_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_batch_reader.cc b/src/mlio/instance_batch_reader.cc
index 84e1917..9ece789 100644
--- a/src/mlio/instance_batch_reader.cc
+++ b/src/mlio/instance_batch_reader.cc
@@ -75,7 +75,8 @@ std::optional<Instance_batch> Instance_batch_reader::read_instance_batch()
     }
 
     std::size_t size{};
-    if (params_->last_example_handling == Last_example_handling::pad) {
+    if (params_->last_example_handling == Last_example_handling::pad ||
+        params_->last_example_handling == Last_example_handling::pad_warn) {
         size = params_->batch_size;
     }
     else {
-- 
2.43.0


From af3b0617d329606597e61796c44c51e182e7de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 08/64] fix: make the CSV schema inference repeatable

After a failed attempt the column types, names and parsers collected so
far were kept and got mixed up with those of the next attempt following
a reset.
---
 src/mlio/csv_reader.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 9824d76..e37990d 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -133,6 +133,8 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             return;
         }
 
+        std::vector<std::string> names{};
+
         Csv_record_tokenizer tokenizer{params_, hdr->payload()};
         while (tokenizer.next()) {
             std::string name;
@@ -142,8 +144,10 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             else {
                 name = params_.name_prefix + tokenizer.value();
             }
-            column_names_.emplace_back(std::move(name));
+            names.emplace_back(std::move(name));
         }
+
+        column_names_ = std::move(names);
     }
     catch (const Corrupt_record_error &) {
         std::throw_with_nested(Schema_error{fmt::format(
@@ -177,6 +181,11 @@ Intrusive_ptr<const Schema> Csv_reader::infer_schema(const std::optional<Instanc
         return {};
     }
 
+    // Drop what an earlier, failed attempt might have left behind.
+    column_types_.clear();
+    column_ignores_.clear();
+    column_parsers_.clear();
+
     infer_column_types(instance);
 
     set_or_validate_column_names(instance);
-- 
2.43.0


From d503dee3efd725565fb0fe4b140fae8e9e707b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 09/64] fix: look for a single CSV header past stores that have
 none

---
 include/mlio/csv_reader.h |  2 +-
 src/mlio/csv_reader.cc    | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/mlio/csv_reader.h b/include/mlio/csv_reader.h
index a81802a..b09757e 100644
--- a/include/mlio/csv_reader.h
+++ b/include/mlio/csv_reader.h
@@ -144,7 +144,7 @@ private:
     Intrusive_ptr<Record_reader> make_record_reader(const Data_store &store) final;
 
     MLIO_HIDDEN
-    void read_names_from_header(const Data_store &store, Record_reader &reader);
+    bool read_names_from_header(const Data_store &store, Record_reader &reader);
 
     MLIO_HIDDEN
     void skip_to_header_row(Record_reader &reader);
diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index e37990d..d83cad4 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -107,30 +107,35 @@ Intrusive_ptr<Record_reader> Csv_reader::make_record_reader(const Data_store &st
     if (params_.header_row_index) {
         // Check if the caller did not explicitly specified the column
         // names and requested us to infer them from the header.
+        bool has_read_header = false;
         if (column_names_.empty()) {
-            read_names_from_header(store, *reader);
+            has_read_header = read_names_from_header(store, *reader);
         }
         else if (should_read_header || !params_.has_single_header) {
             skip_to_header_row(*reader);
 
             // Discard the header row.
-            reader->read_record();
+            has_read_header = reader->read_record() != std::nullopt;
         }
 
-        should_read_header = false;
+        // If the data store has no header row (e.g. it is empty), we
+        // have to look for the header in the next data store.
+        if (has_read_header) {
+            should_read_header = false;
+        }
     }
 
     return std::move(reader);
 }
 
-void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &reader)
+bool Csv_reader::read_names_from_header(const Data_store &store, Record_reader &reader)
 {
     skip_to_header_row(reader);
 
     try {
         std::optional<Record> hdr = reader.read_record();
         if (hdr == std::nullopt) {
-            return;
+            return false;
         }
 
         std::vector<std::string> names{};
@@ -160,6 +165,8 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
     if (column_names_.empty()) {
         column_names_.emplace_back(params_.name_prefix);
     }
+
+    return true;
 }
 
 void Csv_reader::skip_to_header_row(Record_reader &reader)
-- 
2.43.0


From ebf9f9be10f15ac3f8c23af8e7486ac0e8ae505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 10/64] fix: make the RecordIO-protobuf schema inference
 repeatable

---
 src/mlio/recordio_protobuf_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 814eed6..f975386 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -140,6 +140,9 @@ Recordio_protobuf_reader::infer_schema(const std::optional<Instance> &instance)
 
     std::vector<Attribute> attrs{};
 
+    // An earlier attempt might have failed half way.
+    has_sparse_feature_ = false;
+
     for (auto &[label, value] : proto_msg->label()) {
         // The label and feature maps of a RecordIO-protobuf message can
         // contain same-named features. In order to avoid name clashes
@@ -152,6 +155,8 @@ Recordio_protobuf_reader::infer_schema(const std::optional<Instance> &instance)
 
     auto schema = make_intrusive<Schema>(std::move(attrs));
 
+    num_values_per_instance_ = 0;
+
     // We use this value in the decode function to decide whether the
     // amount of data we need to process is worth to parallelize.
     for (const Attribute &attr : schema->attributes()) {
-- 
2.43.0


From 3f77b94927539651c7ed3be7ed9a7342fab11cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 11/64] fix: correct the format strings of two bad instance
 messages

---
 src/mlio/image_reader.cc             |  2 +-
 src/mlio/recordio_protobuf_reader.cc | 18 +++++++-----------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index cf9e9fb..7b7cb36 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -313,7 +313,7 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     catch (const cv::Exception &e) {
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
-                "The image resize operation failed for the image #{2:n} in the data store '{0}' with the following exception: {2}",
+                "The image resize operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
                 instance.data_store().id(),
                 instance.index(),
                 e.what());
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index f975386..8199997 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -655,17 +655,13 @@ bool Recordio_protobuf_reader::Decoder::decode_feature(const Protobuf_tensor &te
 
     if (is_sparse(tensor) != attr_->sparse()) {
         if (state_->warn_bad_instance || state_->error_bad_example) {
-            const char *ft{};
-            if (attr_->sparse()) {
-                ft =
-                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is sparse while it is expected to be dense.";
-            }
-            else {
-                ft =
-                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is dense while it is expected to be sparse.";
-            }
-            auto msg =
-                fmt::format(ft, instance_->data_store().id(), instance_->index(), attr_->name());
+            auto msg = fmt::format(
+                "The feature '{2}' of the instance #{1:n} in the data store '{0}' is {3} while it is expected to be {4}.",
+                instance_->data_store().id(),
+                instance_->index(),
+                attr_->name(),
+                attr_->sparse() ? "dense" : "sparse",
+                attr_->sparse() ? "sparse" : "dense");
 
             if (state_->warn_bad_instance) {
                 logger::warn(msg);
-- 
2.43.0


From fd291a5882fd2d9efbb85f9f1848e5babb8d19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 12/64] fix: discard the partial values of bad instances if
 examples get padded

---
 src/mlio/coo_tensor_builder.cc       | 20 +++++++++++
 src/mlio/coo_tensor_builder.h        | 17 ++++++++++
 src/mlio/csv_reader.cc               |  7 ++++
 src/mlio/detail/tensor_row.h         | 50 ++++++++++++++++++++++++++++
 src/mlio/recordio_protobuf_reader.cc | 22 ++++++++++++
 5 files changed, 116 insertions(+)
 create mode 100644 src/mlio/detail/tensor_row.h

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index fb514e7..8838e67 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/coo_tensor_builder.h"
 
+#include <algorithm>
+
 #include "mlio/util/cast.h"
 
 namespace mlio {
@@ -73,6 +75,24 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
     return true;
 }
 
+std::size_t Coo_tensor_builder::rewind_indices(std::size_t row_idx)
+{
+    // The coordinates of the batch dimension are in ascending order.
+    std::vector<std::size_t> &rows = coordinates_[0];
+
+    auto pos = std::lower_bound(rows.begin(), rows.end(), row_idx);
+
+    auto num_values = static_cast<std::size_t>(pos - rows.begin());
+
+    for (std::vector<std::size_t> &indices : coordinates_) {
+        indices.resize(num_values);
+    }
+
+    row_idx_ = row_idx;
+
+    return num_values;
+}
+
 Intrusive_ptr<Tensor> Coo_tensor_builder::build_core(std::unique_ptr<Device_array> &&data)
 {
     // Wrap index lists into device arrays.
diff --git a/src/mlio/coo_tensor_builder.h b/src/mlio/coo_tensor_builder.h
index 9f4d3d8..f7a1e42 100644
--- a/src/mlio/coo_tensor_builder.h
+++ b/src/mlio/coo_tensor_builder.h
@@ -49,7 +49,16 @@ public:
 
     virtual Intrusive_ptr<Tensor> build() = 0;
 
+    /// Removes everything that has been appended for the specified row
+    /// and the rows after it.
+    virtual void rewind(std::size_t row_idx) = 0;
+
 protected:
+    /// @return
+    ///     The number of values that belong to the rows before the
+    ///     specified one.
+    std::size_t rewind_indices(std::size_t row_idx);
+
     bool append_indices(stdx::span<const std::uint64_t> indices);
 
     Intrusive_ptr<Tensor> build_core(std::unique_ptr<Device_array> &&data);
@@ -72,6 +81,8 @@ public:
 
     Intrusive_ptr<Tensor> build() final;
 
+    void rewind(std::size_t row_idx) final;
+
 private:
     std::vector<value_type> data_{};
 };
@@ -93,6 +104,12 @@ Intrusive_ptr<Tensor> Coo_tensor_builder_impl<dt>::build()
     return build_core(std::move(data));
 }
 
+template<Data_type dt>
+void Coo_tensor_builder_impl<dt>::rewind(std::size_t row_idx)
+{
+    data_.resize(rewind_indices(row_idx));
+}
+
 template<Data_type dt>
 struct make_coo_tensor_builder_op {
     std::unique_ptr<Coo_tensor_builder> operator()(const Attribute &attr, std::size_t batch_size)
diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index d83cad4..0de1b58 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -32,6 +32,7 @@
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
 #include "mlio/detail/sim_hooks.h"
+#include "mlio/detail/tensor_row.h"
 #include "mlio/example.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
@@ -568,6 +569,12 @@ Csv_reader::decode_ser(Decoder_state &state, const Instance_batch &batch) const
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            // Discard the columns that have been parsed before the bad
+            // one; the row might end up as padding.
+            for (auto &tensor : *state.tensors) {
+                detail::clear_row(static_cast<Dense_tensor &>(*tensor), row_idx, 1);
+            }
         }
     }
 
diff --git a/src/mlio/detail/tensor_row.h b/src/mlio/detail/tensor_row.h
new file mode 100644
index 0000000..6bb8f1e
--- /dev/null
+++ b/src/mlio/detail/tensor_row.h
@@ -0,0 +1,50 @@
+/*
+ * Copyright 2019-2020 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License"). You
+ * may not use this file except in compliance with the License. A copy of
+ * the License is located at
+ *
+ *      http://aws.amazon.com/apache2.0/
+ *
+ * or in the "license" file accompanying this file. This file is
+ * distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF
+ * ANY KIND, either express or implied. See the License for the specific
+ * language governing permissions and limitations under the License.
+ */
+
+#pragma once
+
+#include <algorithm>
+#include <cstddef>
+
+#include "mlio/config.h"
+#include "mlio/data_type.h"
+#include "mlio/device_array.h"
+#include "mlio/tensor.h"
+
+namespace mlio {
+inline namespace abi_v1 {
+namespace detail {
+
+template<Data_type dt>
+struct clear_values_op {
+    void operator()(const Device_array_span &arr, std::size_t offset, std::size_t count) const
+    {
+        auto values = arr.as<data_type_t<dt>>();
+
+        std::fill_n(values.begin() + static_cast<std::ptrdiff_t>(offset), count, data_type_t<dt>{});
+    }
+};
+
+/// Resets the values of the specified row to zero.
+inline void clear_row(Dense_tensor &tensor, std::size_t row_idx, std::size_t row_size)
+{
+    Device_array_span arr = tensor.data();
+
+    dispatch<clear_values_op>(arr.data_type(), arr, row_idx * row_size, row_size);
+}
+
+}  // namespace detail
+}  // namespace abi_v1
+}  // namespace mlio
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 8199997..414736b 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -30,6 +30,7 @@
 #include "mlio/data_reader_error.h"
 #include "mlio/detail/protobuf/recordio_protobuf.pb.h"
 #include "mlio/detail/sim_hooks.h"
+#include "mlio/detail/tensor_row.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
 #include "mlio/logger.h"
@@ -64,6 +65,9 @@ public:
     std::vector<Intrusive_ptr<Tensor>> tensors{};
     std::vector<std::unique_ptr<Coo_tensor_builder>> coo_tensor_builders{};
 
+    // Removes whatever has been decoded for the specified row.
+    void discard_row(std::size_t row_idx);
+
 private:
     void init_state(const Schema &schema, std::size_t batch_size);
 
@@ -367,6 +371,8 @@ Recordio_protobuf_reader::decode_serial(Decoder_state &state, const Instance_bat
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            state.discard_row(row_idx);
         }
     }
 
@@ -482,6 +488,22 @@ void Recordio_protobuf_reader::Decoder_state::init_coo_tensor_builder(const Attr
     tensors.emplace_back(nullptr);
 }
 
+void Recordio_protobuf_reader::Decoder_state::discard_row(std::size_t row_idx)
+{
+    const std::vector<Attribute> &attrs = reader->schema()->attributes();
+
+    for (std::size_t i = 0; i < attrs.size(); i++) {
+        if (tensors[i] == nullptr) {
+            coo_tensor_builders[i]->rewind(row_idx);
+        }
+        else {
+            detail::clear_row(static_cast<Dense_tensor &>(*tensors[i]),
+                              row_idx,
+                              as_size(attrs[i].strides()[0]));
+        }
+    }
+}
+
 bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instance &instance)
 {
     row_idx_ = row_idx;
-- 
2.43.0


From 9bd1574477c2e1f8619ab14ca1a7f80b7d66f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 13/64] fix: reject the keys of sparse features that have an
 empty dimension

---
 src/mlio/coo_tensor_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index 8838e67..bbc6b44 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -55,6 +55,11 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
         for (auto zip_pos = zip_beg; zip_pos < zip_end; ++zip_pos) {
             std::size_t stride = as_size(std::get<1>(*zip_pos));
 
+            // If a dimension is empty, there is no valid index.
+            if (stride == 0) {
+                return false;
+            }
+
             std::size_t dim_idx = idx / stride;
 
             // Make sure that the index is within the dimension.
-- 
2.43.0


From f16272a07849964eb773fafc5e63536c02e8b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 14/64] fix: handle truncated and wrong-channel images as bad
 instances

---
 src/mlio/image_reader.cc | 41 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 7b7cb36..cc71c26 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -157,6 +157,25 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 {
     Memory_slice img_buf{};
     if (params_.image_frame == Image_frame::recordio) {
+        if (instance.bits().size() < recordio_image_header_offset_) {
+            if (warn_bad_instances() || error_bad_example_) {
+                auto msg = fmt::format(
+                    "The image #{1:n} in the data store '{0}' has a truncated RecordIO header.",
+                    instance.data_store().id(),
+                    instance.index());
+
+                if (warn_bad_instances()) {
+                    logger::warn(msg);
+                }
+
+                if (error_bad_example_) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
         // Skip the 24-byte header defined in image_recordio.h in the
         // MXNet GitHub repository. This header contains metadata and
         // is not relevant in our implementation.
@@ -281,11 +300,23 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
     }
 
     if (mode == cv::ImreadModes::IMREAD_UNCHANGED && decoded_img.channels() != 4) {
-        throw std::invalid_argument{fmt::format(
-            "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
-            instance.data_store().id(),
-            instance.index(),
-            decoded_img.channels())};
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
+                instance.data_store().id(),
+                instance.index(),
+                decoded_img.channels());
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw std::invalid_argument{msg};
+            }
+        }
+
+        return cv::Mat{};
     }
 
     return decoded_img;
-- 
2.43.0


From 90eeba0ed329d86778a69ad43f1c1b778f8e3485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 15/64] fix: output four-channel images that are 16-bit or have
 to be converted to RGB

---
 src/mlio/image_reader.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index cc71c26..1063a0e 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -226,7 +226,10 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 
     if (params_.to_rgb && tmp.channels() != 1) {
         try {
-            cv::cvtColor(tmp, tmp, cv::COLOR_BGR2RGB);
+            // Preserve the alpha channel.
+            int code = tmp.channels() == 4 ? cv::COLOR_BGRA2RGBA : cv::COLOR_BGR2RGB;
+
+            cv::cvtColor(tmp, tmp, code);
         }
         catch (const cv::Exception &e) {
             if (warn_bad_instances() || error_bad_example_) {
@@ -319,6 +322,11 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
         return cv::Mat{};
     }
 
+    if (decoded_img.depth() != CV_8U) {
+        // The other modes convert 16-bit images implicitly.
+        decoded_img.convertTo(decoded_img, CV_8U, 1.0 / 257.0);
+    }
+
     return decoded_img;
 }
 
-- 
2.43.0


From 3ddfe6a6f48c5b236a6cbd82f516f08fb25e6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 16/64] fix: restore the signal mask if a thread cannot be
 started

---
 src/mlio/detail/thread.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mlio/detail/thread.h b/src/mlio/detail/thread.h
index 8505d57..6ecaa6e 100644
--- a/src/mlio/detail/thread.h
+++ b/src/mlio/detail/thread.h
@@ -41,7 +41,15 @@ std::thread start_thread(Func &&f, Args &&... args)
         throw std::system_error{s, std::generic_category()};
     }
 
-    std::thread t{std::forward<Func>(f), std::forward<Args>(args)...};
+    std::thread t{};
+    try {
+        t = std::thread{std::forward<Func>(f), std::forward<Args>(args)...};
+    }
+    catch (...) {
+        ::pthread_sigmask(SIG_SETMASK, &original_mask, nullptr);
+
+        throw;
+    }
 
     // Restore the signal mask.
     s = ::pthread_sigmask(SIG_SETMASK, &original_mask, nullptr);
-- 
2.43.0


From 4b8734deb4a094326269890c3e6900e074833245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 17/64] fix: don't wait for a background thread that cannot be
 started

---
 src/mlio/parallel_data_reader.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 0a7e4a0..1362221 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -152,7 +152,14 @@ void Parallel_data_reader::ensure_pipeline_running()
 
     state_ = Run_state::running;
 
-    thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+    try {
+        thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+    }
+    catch (...) {
+        state_ = Run_state::not_started;
+
+        throw;
+    }
 }
 
 void Parallel_data_reader::run_pipeline()
-- 
2.43.0


From 44bb9851aa1ebe380e164f07a476216063b2bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 18/64] fix: report all exceptions of the background thread to
 the caller

---
 src/mlio/parallel_data_reader.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 1362221..a82e5d0 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -164,16 +164,16 @@ void Parallel_data_reader::ensure_pipeline_running()
 
 void Parallel_data_reader::run_pipeline()
 {
-    if (graph_->src_node == nullptr) {
-        init_graph();
-    }
+    try {
+        if (graph_->src_node == nullptr) {
+            init_graph();
+        }
 
-    graph_->src_node->activate();
+        graph_->src_node->activate();
 
-    try {
         graph_->obj.wait_for_all();
     }
-    catch (const std::exception &) {
+    catch (...) {
         exception_ptr_ = std::current_exception();
     }
 
-- 
2.43.0


From 18fc930430ac878c3178f8269f109e9469cf2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 19/64] fix: avoid a data race on the state of the background
 thread

---
 include/mlio/parallel_data_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mlio/parallel_data_reader.h b/include/mlio/parallel_data_reader.h
index cf0c86e..b9573eb 100644
--- a/include/mlio/parallel_data_reader.h
+++ b/include/mlio/parallel_data_reader.h
@@ -109,7 +109,7 @@ private:
     Data_reader_params params_;
     std::unique_ptr<detail::Instance_reader> reader_;
     std::unique_ptr<detail::Instance_batch_reader> batch_reader_;
-    Run_state state_{};
+    std::atomic<Run_state> state_{};
     std::unique_ptr<Graph_data> graph_;
     std::thread thread_{};
     std::deque<Intrusive_ptr<Example>> fill_queue_{};
-- 
2.43.0


From dac99f2d676a9d6bdd88924860d1a8decfe3d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 20/64] fix: handle CSV rows with an unterminated quote as bad
 instances

---
 src/mlio/csv_reader.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 0de1b58..5191ef1 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -75,6 +75,8 @@ public:
     bool decode(std::size_t row_idx, const Instance &instance);
 
 private:
+    bool decode_core(std::size_t row_idx, const Instance &instance);
+
     Decoder_state *state_;
     Csv_record_tokenizer *tokenizer_;
     Col_iter col_beg_;
@@ -649,6 +651,28 @@ Csv_reader::Decoder_state::Decoder_state(const Csv_reader &r,
 
 template<typename Col_iter>
 bool Csv_reader::Decoder<Col_iter>::decode(std::size_t row_idx, const Instance &instance)
+{
+    try {
+        return decode_core(row_idx, instance);
+    }
+    catch (const Corrupt_record_error &e) {
+        if (state_->warn_bad_instance) {
+            logger::warn("The row #{1:n} in the data store '{0}' is corrupt: {2}",
+                         instance.data_store().id(),
+                         instance.index(),
+                         e.what());
+        }
+
+        if (state_->error_bad_example) {
+            throw;
+        }
+    }
+
+    return false;
+}
+
+template<typename Col_iter>
+bool Csv_reader::Decoder<Col_iter>::decode_core(std::size_t row_idx, const Instance &instance)
 {
     auto col_pos = col_beg_;
 
-- 
2.43.0


From cd221ab5f74b9374a550d72b3fcf30558367872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 21/64] fix: release the SageMaker pipe channel only once

---
 include/mlio/streams/sagemaker_pipe_input_stream.h | 1 +
 src/mlio/streams/sagemaker_pipe_input_stream.cc    | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/mlio/streams/sagemaker_pipe_input_stream.h b/include/mlio/streams/sagemaker_pipe_input_stream.h
index a6c7945..a70fe1a 100644
--- a/include/mlio/streams/sagemaker_pipe_input_stream.h
+++ b/include/mlio/streams/sagemaker_pipe_input_stream.h
@@ -82,6 +82,7 @@ private:
     std::string path_;
     std::ptrdiff_t fifo_id_ = -1;
     detail::File_descriptor fifo_fd_{};
+    bool has_released_channel_{};
     std::chrono::seconds timeout_;
 };
 
diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 2177c9f..5eaa5b6 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -111,6 +111,12 @@ void Sagemaker_pipe_input_stream::close() noexcept
 {
     fifo_fd_ = {};
 
+    // Once released, the channel might already be acquired by another
+    // stream.
+    if (std::exchange(has_released_channel_, true)) {
+        return;
+    }
+
     detail::fifo_ids_[path_].exchange(fifo_id_);
 }
 
-- 
2.43.0


From 4f23d8ad0c1fd300409d8750a0318bd476d75cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 22/64] fix: guard the FIFO IDs of the SageMaker pipe channels

---
 .../streams/sagemaker_pipe_input_stream.cc     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 5eaa5b6..c850446 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -15,8 +15,8 @@
 
 #include "mlio/streams/sagemaker_pipe_input_stream.h"  // IWYU pragma: associated
 
-#include <atomic>
 #include <cerrno>
+#include <mutex>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
@@ -49,7 +49,17 @@ namespace {
 // instantiated, it replaces the FIFO ID with -1 indicating that it
 // acquired the channel. Right before getting destructed, the stream
 // increments the original FIFO ID and puts it back to the container.
-std::unordered_map<std::string, std::atomic_ptrdiff_t> fifo_ids_{};
+std::unordered_map<std::string, std::ptrdiff_t> fifo_ids_{};
+
+std::mutex fifo_ids_mutex_{};
+
+// Returns the FIFO ID of the channel and replaces it with the new one.
+std::ptrdiff_t exchange_fifo_id(const std::string &path, std::ptrdiff_t new_id)
+{
+    std::unique_lock<std::mutex> lock{fifo_ids_mutex_};
+
+    return std::exchange(fifo_ids_[path], new_id);
+}
 
 }  // namespace
 }  // namespace detail
@@ -117,7 +127,7 @@ void Sagemaker_pipe_input_stream::close() noexcept
         return;
     }
 
-    detail::fifo_ids_[path_].exchange(fifo_id_);
+    detail::exchange_fifo_id(path_, fifo_id_);
 }
 
 Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
@@ -127,7 +137,7 @@ Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
 {
     detail::validate_file_path(path_);
 
-    fifo_id_ = detail::fifo_ids_[path_].exchange(-1);
+    fifo_id_ = detail::exchange_fifo_id(path_, -1);
     if (fifo_id_ == -1) {
         auto err = std::make_error_code(std::errc::permission_denied);
         throw std::system_error{err, "The SageMaker pipe channel is already open."};
-- 
2.43.0


From 113b28d8b2eeb2ed3697ec3bf0fdaa79e3a43fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 23/64] fix: convert short non-seekable streams that consist of
 a preamble only

---
 include/mlio/streams/utf8_input_stream.h |  1 +
 src/mlio/streams/utf8_input_stream.cc    | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mlio/streams/utf8_input_stream.h b/include/mlio/streams/utf8_input_stream.h
index d78801c..48bdce8 100644
--- a/include/mlio/streams/utf8_input_stream.h
+++ b/include/mlio/streams/utf8_input_stream.h
@@ -88,6 +88,7 @@ private:
     Mutable_memory_block::iterator buffer_pos_{};
     Mutable_memory_block::iterator buffer_end_{};
     bool should_fill_buffer_ = true;
+    bool has_preamble_{};
     std::array<std::byte, 4> char_buffer_{};
     Memory_span remaining_bits_{};
 };
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 4ee2ba3..8eba4ed 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -136,15 +136,20 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
                 // We reached the end of the stream; we should check if
                 // there are unconsumed bytes in the buffer that cannot
                 // be converted.
-                if (buffer_pos_ != buffer_->begin()) {
+                if (buffer_pos_ != buffer_->begin() && !has_preamble_) {
                     throw Stream_error{fmt::format(
                         "An invalid byte sequence encountered while converting from {0} to UTF-8.",
                         converter_->encoding().name())};
                 }
 
-                return 0;
+                // The preamble might be all that the stream has.
+                if (!has_preamble_) {
+                    return 0;
+                }
             }
 
+            has_preamble_ = false;
+
             // If there were leftover bytes from the previous iteration
             // or call, we now have to reset the position back to the
             // beginning of the buffer.
@@ -220,6 +225,8 @@ void Utf8_input_stream::set_preamble(Memory_span value) noexcept
         // Otherwise put them into the buffer so they get converted by
         // the next call to read().
         buffer_pos_ = std::copy(value.begin(), value.end(), buffer_->begin());
+
+        has_preamble_ = !value.empty();
     }
 }
 
-- 
2.43.0


From bd8f97628f8338ea41c692c9db328a121fe385f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 24/64] fix: convert ISO-8859-1 text to UTF-8

---
 src/mlio/streams/utf8_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 8eba4ed..d3edeb4 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -296,7 +296,7 @@ Intrusive_ptr<Input_stream>
 make_utf8_stream(Intrusive_ptr<Input_stream> stream, std::optional<Text_encoding> encoding)
 {
     if (encoding != std::nullopt) {
-        if (*encoding == Text_encoding::utf8 || *encoding == Text_encoding::ascii_latin1) {
+        if (*encoding == Text_encoding::utf8) {
             return stream;
         }
     }
-- 
2.43.0


From da26de4e5458fddc07b23010e3150a3989bb36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 25/64] fix: don't loop forever while loading an empty seekable
 store

---
 src/mlio/instance.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 3248e3a..c04b060 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -93,8 +93,13 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
             block = resize_memory_block(block, prev_size * 2);
         }
         else {
+            std::size_t size{};
             if (stream.seekable()) {
-                block = memory_allocator().allocate(stream.size());
+                size = stream.size();
+            }
+
+            if (size > 0) {
+                block = memory_allocator().allocate(size);
             }
             else {
                 block = memory_allocator().allocate(MLIO_SIM_KNOB(instance_buffer, 0x100000));  // 1MiB
-- 
2.43.0


From c27a722c090af1b68642936b6bb85114e1d2b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 26/64] fix: move memory blocks to files based on their
 requested size

---
 src/mlio/memory/file_backed_memory_allocator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/memory/file_backed_memory_allocator.cc b/src/mlio/memory/file_backed_memory_allocator.cc
index 8816f49..6be5108 100644
--- a/src/mlio/memory/file_backed_memory_allocator.cc
+++ b/src/mlio/memory/file_backed_memory_allocator.cc
@@ -77,7 +77,7 @@ void Hybrid_memory_block::resize(size_type size)
     // not true. Once we have a file-backed memory block there is no
     // need to move back to the heap; once initialized accessing a
     // file-backed memory region has no extra latency.
-    if (!file_backed_ && inner_->size() > oversize_threshold_) {
+    if (!file_backed_ && size > oversize_threshold_) {
         logger::debug(
             "The data is being moved from heap to file-backed memory block. Old size was {0:n} byte(s); new size is {1:n} bytes.",
             inner_->size(),
-- 
2.43.0


From 03196e639cc2d050e3c658d45c0f04b390a15dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 27/64] fix: remove the temporary file of a memory block that
 cannot be allocated

---
 src/mlio/memory/file_backed_memory_block.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index 7f62eba..2075a40 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -54,13 +54,17 @@ void File_backed_memory_block::make_temporary_file()
 
     fd_ = ::mkstemp(&path.front());
 
+    if (fd_ != -1) {
+        // We only need the descriptor; make sure that the file does not
+        // outlive it even if we fail below.
+        ::unlink(&path.front());
+    }
+
     auto off = static_cast<::off_t>(size_);
     if (fd_ == -1 || ::ftruncate(fd_.get(), off) != 0) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be allocated."};
     }
-
-    ::unlink(&path.front());
 }
 
 void File_backed_memory_block::resize(size_type size)
-- 
2.43.0


From f31738a1c97c02d00c2fe602907756e80affca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 28/64] fix: output the characters the text converter holds
 back at the end

---
 src/mlio/streams/detail/iconv.cc      | 22 ++++++++++++++++++++++
 src/mlio/streams/detail/iconv.h       |  6 ++++++
 src/mlio/streams/utf8_input_stream.cc |  4 +++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/detail/iconv.cc b/src/mlio/streams/detail/iconv.cc
index 4b62633..2ad2667 100644
--- a/src/mlio/streams/detail/iconv.cc
+++ b/src/mlio/streams/detail/iconv.cc
@@ -82,6 +82,28 @@ Iconv_status Iconv_desc::convert(Memory_span &inp, Mutable_memory_span &out)
     if (errno == E2BIG) {
         return Iconv_status::leftover;
     }
+
+    throw_conversion_error();
+}
+
+void Iconv_desc::flush(Mutable_memory_span &out)
+{
+    auto o_chars = as_span<char>(out);
+
+    auto o_data = o_chars.data();
+    auto o_left = o_chars.size();
+
+    std::size_t r = ::iconv(desc_, nullptr, nullptr, &o_data, &o_left);
+
+    out = out.last(o_left);
+
+    if (static_cast<std::ptrdiff_t>(r) == -1 && errno != E2BIG) {
+        throw_conversion_error();
+    }
+}
+
+void Iconv_desc::throw_conversion_error() const
+{
     if (errno == EILSEQ) {
         throw Stream_error{
             fmt::format("An invalid byte sequence encountered while converting from {0} to UTF-8.",
diff --git a/src/mlio/streams/detail/iconv.h b/src/mlio/streams/detail/iconv.h
index efbd81e..873cb0f 100644
--- a/src/mlio/streams/detail/iconv.h
+++ b/src/mlio/streams/detail/iconv.h
@@ -42,12 +42,18 @@ public:
 
     Iconv_status convert(Memory_span &inp, Mutable_memory_span &out);
 
+    // Writes out the characters that the converter holds back to see
+    // whether they get combined with the characters following them.
+    void flush(Mutable_memory_span &out);
+
     const Text_encoding &encoding() const noexcept
     {
         return encoding_;
     }
 
 private:
+    [[noreturn]] void throw_conversion_error() const;
+
     Text_encoding encoding_;
     ::iconv_t desc_;
 };
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index d3edeb4..d8d9169 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -144,7 +144,9 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
 
                 // The preamble might be all that the stream has.
                 if (!has_preamble_) {
-                    return 0;
+                    converter_->flush(out);
+
+                    break;
                 }
             }
 
-- 
2.43.0


From 6c70ab2e282ed5e9a0e9b5130a391492795f9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 29/64] fix: do not race on the lazily built id of an in-memory
 store

---
 include/mlio/data_stores/in_memory_store.h | 2 +-
 src/mlio/data_stores/in_memory_store.cc    | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/mlio/data_stores/in_memory_store.h b/include/mlio/data_stores/in_memory_store.h
index 779128b..0aa39ed 100644
--- a/include/mlio/data_stores/in_memory_store.h
+++ b/include/mlio/data_stores/in_memory_store.h
@@ -44,7 +44,7 @@ public:
 private:
     Memory_slice chunk_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 /// @}
diff --git a/src/mlio/data_stores/in_memory_store.cc b/src/mlio/data_stores/in_memory_store.cc
index 4e1e8ab..cccd2c8 100644
--- a/src/mlio/data_stores/in_memory_store.cc
+++ b/src/mlio/data_stores/in_memory_store.cc
@@ -33,6 +33,10 @@ In_memory_store::In_memory_store(Memory_slice chunk, Compression compression)
     if (compression_ == Compression::infer) {
         throw Not_supported_error{"The in-memory store does not support inferring compression."};
     }
+
+    // A store can be shared between threads; do not defer this to the
+    // first call of id().
+    id_ = fmt::format("{0:p}+{1:#04x}", static_cast<const void *>(chunk_.data()), chunk_.size());
 }
 
 Intrusive_ptr<Input_stream> In_memory_store::open_read() const
@@ -51,11 +55,6 @@ Intrusive_ptr<Input_stream> In_memory_store::open_read() const
 
 const std::string &In_memory_store::id() const
 {
-    if (id_.empty()) {
-        auto *ptr = static_cast<const void *>(chunk_.data());
-        id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
-    }
-
     return id_;
 }
 
-- 
2.43.0


From ffe9e350f3438cfe55606b4f34d17df94f67abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 30/64] fix: do not race on the lazily built id of an S3 object

---
 include/mlio/data_stores/s3_object.h |  2 +-
 src/mlio/data_stores/s3_object.cc    | 12 ++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/mlio/data_stores/s3_object.h b/include/mlio/data_stores/s3_object.h
index 6ae435c..bfe87ac 100644
--- a/include/mlio/data_stores/s3_object.h
+++ b/include/mlio/data_stores/s3_object.h
@@ -54,7 +54,7 @@ private:
     std::string uri_;
     std::string version_id_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 struct MLIO_API S3_object_list_options {
diff --git a/src/mlio/data_stores/s3_object.cc b/src/mlio/data_stores/s3_object.cc
index 23c0945..c36ca50 100644
--- a/src/mlio/data_stores/s3_object.cc
+++ b/src/mlio/data_stores/s3_object.cc
@@ -47,6 +47,10 @@ S3_object::S3_object(Intrusive_ptr<const S3_client> client,
     if (compression_ == Compression::infer) {
         compression_ = detail::infer_compression(uri_);
     }
+
+    // A store can be shared between threads; do not defer this to the
+    // first call of id().
+    id_ = version_id_.empty() ? uri_ : uri_ + "@" + version_id_;
 }
 
 Intrusive_ptr<Input_stream> S3_object::open_read() const
@@ -65,14 +69,6 @@ Intrusive_ptr<Input_stream> S3_object::open_read() const
 
 const std::string &S3_object::id() const
 {
-    if (id_.empty()) {
-        if (version_id_.empty()) {
-            return uri_;
-        }
-
-        id_ = uri_ + "@" + version_id_;
-    }
-
     return id_;
 }
 
-- 
2.43.0


From e9483335466d89cfa361b39e189a3d5ca5b00c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 31/64] fix: open a SageMaker pipe store from several threads
 without a data race

---
 include/mlio/data_stores/sagemaker_pipe.h |  2 ++
 src/mlio/data_stores/sagemaker_pipe.cc    | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mlio/data_stores/sagemaker_pipe.h b/include/mlio/data_stores/sagemaker_pipe.h
index b6c70a8..4e573bf 100644
--- a/include/mlio/data_stores/sagemaker_pipe.h
+++ b/include/mlio/data_stores/sagemaker_pipe.h
@@ -17,6 +17,7 @@
 
 #include <chrono>
 #include <cstddef>
+#include <mutex>
 #include <optional>
 #include <string>
 
@@ -54,6 +55,7 @@ private:
     std::string path_;
     std::chrono::seconds timeout_;
     mutable std::optional<std::size_t> fifo_id_;
+    mutable std::mutex fifo_id_mutex_{};
     Compression compression_;
 };
 
diff --git a/src/mlio/data_stores/sagemaker_pipe.cc b/src/mlio/data_stores/sagemaker_pipe.cc
index 1f4e829..c62cb61 100644
--- a/src/mlio/data_stores/sagemaker_pipe.cc
+++ b/src/mlio/data_stores/sagemaker_pipe.cc
@@ -46,8 +46,14 @@ Intrusive_ptr<Input_stream> Sagemaker_pipe::open_read() const
 {
     logger::info("The SageMaker pipe '{0}' is being opened.", path_);
 
-    auto stream =
-        make_sagemaker_pipe_input_stream(path_, timeout_, std::exchange(fifo_id_, std::nullopt));
+    std::optional<std::size_t> fifo_id{};
+    {
+        std::unique_lock<std::mutex> lock{fifo_id_mutex_};
+
+        fifo_id = std::exchange(fifo_id_, std::nullopt);
+    }
+
+    auto stream = make_sagemaker_pipe_input_stream(path_, timeout_, fifo_id);
 
     if (compression_ == Compression::none) {
         return std::move(stream);
-- 
2.43.0


From 56ba37a1f02ca1f60b862efc95851782ce5335d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 32/64] fix: keep the tail of a file-backed memory block whose
 shrinking fails

---
 src/mlio/memory/file_backed_memory_block.cc | 30 +++++++++------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index 2075a40..6dd5766 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -23,6 +23,7 @@
 #include <unistd.h>
 
 #include "mlio/detail/error.h"
+#include "mlio/logger.h"
 
 using mlio::detail::current_error_code;
 
@@ -74,7 +75,13 @@ void File_backed_memory_block::resize(size_type size)
     }
 
     auto off = static_cast<::off_t>(size);
-    if (::ftruncate(fd_.get(), off) != 0) {
+
+    // If we shrink the block, its mapping has to go first; truncating
+    // the backing file would destroy data that we still have to keep if
+    // the mapping cannot be changed.
+    bool shrink = size < size_;
+
+    if (!shrink && ::ftruncate(fd_.get(), off) != 0) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be resized."};
     }
@@ -98,22 +105,7 @@ void File_backed_memory_block::resize(size_type size)
         data_ = static_cast<std::byte *>(addr);
         size_ = size;
 #else
-        std::byte *data{};
-        try {
-            data = init_memory_map(size);
-        }
-        catch (const std::system_error &) {
-            // We already truncated the backing file, but cannot map it
-            // to memory. If the new size is less than the original size
-            // this means we lost the data in the truncated region. In
-            // such case we should abort the process as there is no way
-            // to recover gracefully.
-            if (size_ > size) {
-                std::abort();
-            }
-
-            throw;
-        }
+        std::byte *data = init_memory_map(size);
 
         ::munmap(data_, size_);
 
@@ -121,6 +113,10 @@ void File_backed_memory_block::resize(size_type size)
         size_ = size;
 #endif
     }
+
+    if (shrink && ::ftruncate(fd_.get(), off) != 0) {
+        logger::warn("The backing file of a memory block cannot be truncated.");
+    }
 }
 
 std::byte *File_backed_memory_block::init_memory_map(std::size_t size)
-- 
2.43.0


From b1f5d18c4c4ffe3175e8b8a8777449ab2fc7e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 33/64] fix: keep a memory stream inside its source for any
 seek or read distance

A distance larger than a pointer can be moved by put the position outside
of the source and later reads out of bounds.
---
 src/mlio/streams/memory_input_stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/memory_input_stream.cc b/src/mlio/streams/memory_input_stream.cc
index 3cdd1a9..57eb770 100644
--- a/src/mlio/streams/memory_input_stream.cc
+++ b/src/mlio/streams/memory_input_stream.cc
@@ -88,7 +88,11 @@ std::size_t Memory_input_stream::position() const
 
 void Memory_input_stream::advance_position(std::size_t distance) noexcept
 {
-    pos_ = std::min(pos_ + as_ssize(distance), source_.end());
+    // The distance comes from the caller and can be larger than what a
+    // pointer can be moved by.
+    std::size_t num_bytes_left = as_size(source_.end() - pos_);
+
+    pos_ += as_ssize(std::min(distance, num_bytes_left));
 }
 
 void Memory_input_stream::check_if_closed() const
-- 
2.43.0


From b50625e2e4bda42729889bf1ad9b059e3e7f3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 34/64] fix: do not lose text when a read below a UTF-8 stream
 fails

The bytes read by the attempt before the failure were dropped and the next
read of the stream continued behind them.
---
 include/mlio/streams/utf8_input_stream.h |  1 +
 src/mlio/streams/utf8_input_stream.cc    | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/mlio/streams/utf8_input_stream.h b/include/mlio/streams/utf8_input_stream.h
index 48bdce8..589eeab 100644
--- a/include/mlio/streams/utf8_input_stream.h
+++ b/include/mlio/streams/utf8_input_stream.h
@@ -87,6 +87,7 @@ private:
     Intrusive_ptr<Mutable_memory_block> buffer_{};
     Mutable_memory_block::iterator buffer_pos_{};
     Mutable_memory_block::iterator buffer_end_{};
+    std::size_t num_bytes_filled_{};
     bool should_fill_buffer_ = true;
     bool has_preamble_{};
     std::array<std::byte, 4> char_buffer_{};
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index d8d9169..84b950d 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -196,9 +196,18 @@ void Utf8_input_stream::fill_buffer()
 {
     Mutable_memory_span buffer{buffer_pos_, buffer_end_};
 
-    std::size_t num_bytes_read = detail::fill_buffer(*inner_, buffer);
+    // If an earlier attempt failed half way, we continue from where it
+    // stopped; otherwise the bytes it has read would be lost.
+    while (num_bytes_filled_ < buffer.size()) {
+        std::size_t num_bytes_read = inner_->read(buffer.subspan(num_bytes_filled_));
+        if (num_bytes_read == 0) {
+            break;
+        }
+
+        num_bytes_filled_ += num_bytes_read;
+    }
 
-    buffer_end_ = buffer_pos_ + as_ssize(num_bytes_read);
+    buffer_end_ = buffer_pos_ + as_ssize(std::exchange(num_bytes_filled_, std::size_t{}));
 }
 
 std::size_t Utf8_input_stream::copy_from_remainder(Mutable_memory_span destination) noexcept
-- 
2.43.0


From bcc496614b77294fec84fbd949d6ef4ba16644d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 35/64] fix: report a split record left open at the end of the
 dataset without a crash

---
 .../instance_readers/core_instance_reader.cc    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index c70c0a9..5270d33 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -16,6 +16,7 @@
 #include "mlio/instance_readers/core_instance_reader.h"
 
 #include <exception>
+#include <string>
 #include <system_error>
 #include <utility>
 
@@ -69,35 +70,41 @@ std::optional<Instance> Core_instance_reader::read_instance_core()
 
 void Core_instance_reader::handle_errors()
 {
+    // A split record that has no end is noticed only after the last
+    // data store is left behind; in such case there is no current data
+    // store anymore.
+    const std::string &store_id =
+        store_ != nullptr ? store_->id() : params_->dataset.back()->id();
+
     try {
         throw;
     }
     catch (const Record_too_large_error &) {
         std::throw_with_nested(Data_reader_error{fmt::format(
             "The record #{1:n} in the data store '{0}' is too large. See nested exception for details.",
-            store_->id(),
+            store_id,
             record_idx_)});
     }
     catch (const Corrupt_record_error &) {
         std::throw_with_nested(Data_reader_error{fmt::format(
             "The record #{1:n} in the data store '{0}' is corrupt. See nested exception for details.",
-            store_->id(),
+            store_id,
             record_idx_)});
     }
     catch (const Stream_error &) {
         std::throw_with_nested(Data_reader_error{fmt::format(
             "The data store '{0}' contains corrupt data. See nested exception for details.",
-            store_->id())});
+            store_id)});
     }
     catch (const Not_supported_error &) {
         std::throw_with_nested(Data_reader_error{
             fmt::format("The data store '{0}' cannot be read. See nested exception for details.",
-                        store_->id())});
+                        store_id)});
     }
     catch (const std::system_error &) {
         std::throw_with_nested(Data_reader_error{fmt::format(
             "A system error occurred while trying to read from the data store '{0}'. See nested exception for details.",
-            store_->id())});
+            store_id)});
     }
 }
 
-- 
2.43.0


From 1da2df6a299dc427ad7dd864c094771f9d3b31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 36/64] fix: fail the size and position of a closed S3 stream

---
 include/mlio/streams/s3_input_stream.h | 10 ++--------
 src/mlio/streams/s3_input_stream.cc    | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/mlio/streams/s3_input_stream.h b/include/mlio/streams/s3_input_stream.h
index b84f88a..a7b6e88 100644
--- a/include/mlio/streams/s3_input_stream.h
+++ b/include/mlio/streams/s3_input_stream.h
@@ -47,15 +47,9 @@ public:
 
     void close() noexcept final;
 
-    std::size_t size() const final
-    {
-        return size_;
-    }
+    std::size_t size() const final;
 
-    std::size_t position() const final
-    {
-        return position_;
-    }
+    std::size_t position() const final;
 
     bool closed() const noexcept final
     {
diff --git a/src/mlio/streams/s3_input_stream.cc b/src/mlio/streams/s3_input_stream.cc
index 3916647..e4a2d82 100644
--- a/src/mlio/streams/s3_input_stream.cc
+++ b/src/mlio/streams/s3_input_stream.cc
@@ -58,6 +58,20 @@ void S3_input_stream::close() noexcept
     closed_ = true;
 }
 
+std::size_t S3_input_stream::size() const
+{
+    check_if_closed();
+
+    return size_;
+}
+
+std::size_t S3_input_stream::position() const
+{
+    check_if_closed();
+
+    return position_;
+}
+
 S3_input_stream::S3_input_stream(Intrusive_ptr<const S3_client> client,
                                  std::string bucket,
                                  std::string key,
-- 
2.43.0


From 890c8ece9e238e7f18650bae20c8a856401b67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 37/64] fix: accept the default AWS credentials for more than
 one S3 client

---
 src/mlio/s3_client.cc | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mlio/s3_client.cc b/src/mlio/s3_client.cc
index f2a90e4..8a5af35 100644
--- a/src/mlio/s3_client.cc
+++ b/src/mlio/s3_client.cc
@@ -17,7 +17,6 @@
 
 #ifdef MLIO_BUILD_S3
 
-#include <mutex>
 #include <system_error>
 
 #include <aws/core/Aws.h>
@@ -38,21 +37,14 @@ inline namespace abi_v1 {
 namespace detail {
 namespace {
 
-std::once_flag chain_initialized;
-
 Aws::Auth::AWSCredentials get_default_aws_credentials()
 {
-    std::unique_ptr<Aws::Auth::DefaultAWSCredentialsProviderChain> chain{};
-
-    // Compilers are allowed to initialize local static variables before
-    // entering the main function. As the credentials provider chain has
-    // to be constructed after calling the Aws::InitAPI function here we
-    // initialize lazily.
-    std::call_once(chain_initialized, [&chain]() {
-        chain = std::make_unique<Aws::Auth::DefaultAWSCredentialsProviderChain>();
-    });
+    // The credentials provider chain has to be constructed after calling
+    // the Aws::InitAPI function and has to be destructed before calling
+    // the Aws::ShutdownAPI function; do not make it a static variable.
+    Aws::Auth::DefaultAWSCredentialsProviderChain chain{};
 
-    return chain->GetAWSCredentials();
+    return chain.GetAWSCredentials();
 }
 
 #pragma GCC diagnostic push
-- 
2.43.0


From 87577d2df8b3d9368dcd45e879cbb703ed741ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 38/64] fix: keep the mean of a column when a batch has no
 finite number

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 7 +++++--
 src/mlio-py/mlio/contrib/insights/module.cc          | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index c9f4a9b..063e7d7 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -155,8 +155,11 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         // Update the mean of numeric values based on the entire range of values.
         auto ncc = static_cast<double>(numeric_column_count);
         auto nfc = static_cast<double>(stats.numeric_finite_count);
-        double numeric_column_mean = numeric_column_sum / ncc;
-        stats.numeric_finite_mean += (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        if (numeric_column_count > 0) {
+            double numeric_column_mean = numeric_column_sum / ncc;
+            stats.numeric_finite_mean +=
+                (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        }
 
         // Update average length of string values baseed on entire range of values.
         auto scc = static_cast<double>(string_column_count);
diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index 105fee3..d0c6b64 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -80,6 +80,9 @@ data_analysis analyze_dataset(mlio::Data_reader &reader,
         if (stats.str_min_length_not_empty == max_len) {
             stats.str_min_length_not_empty = 0;
         }
+        if (stats.numeric_finite_count == 0) {
+            stats.numeric_finite_mean = std::numeric_limits<double>::quiet_NaN();
+        }
     }
 
     return data_analysis{std::move(column_stats)};
-- 
2.43.0


From 3b0a76cd14ee271fa301afa41d10f3a6a9714f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 39/64] fix: average the string lengths of a column over all of
 its rows

---
 .../mlio/contrib/insights/column_analyzer.cc        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 063e7d7..ef40eb2 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -65,6 +65,7 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             }
 
             stats.rows_seen++;
+            string_column_count++;
 
             // String analyzers.
             if (cell.empty()) {
@@ -80,7 +81,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
 
             string_column_length_sum += cell.size();
-            string_column_count++;
 
             stats.str_cardinality_estimator_.add(cell);
 
@@ -162,10 +162,13 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         }
 
         // Update average length of string values baseed on entire range of values.
-        auto scc = static_cast<double>(string_column_count);
-        auto rows_seen = static_cast<double>(stats.rows_seen);
-        double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
-        stats.str_avg_length += (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        if (string_column_count > 0) {
+            auto scc = static_cast<double>(string_column_count);
+            auto rows_seen = static_cast<double>(stats.rows_seen);
+            double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
+            stats.str_avg_length +=
+                (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        }
     }
 };
 
-- 
2.43.0


From e178dee14bc0790fd139ba2160e16261a9d150bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 40/64] fix: count empty strings in the minimum string length
 of a column

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index ef40eb2..175245e 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -68,6 +68,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             string_column_count++;
 
             // String analyzers.
+            stats.str_min_length = std::min(stats.str_min_length, cell.size());
+
             if (cell.empty()) {
                 stats.str_empty_count++;
 
@@ -75,7 +77,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
                 continue;
             }
 
-            stats.str_min_length = std::min(stats.str_min_length, cell.size());
             stats.str_max_length = std::max(stats.str_max_length, cell.size());
 
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
-- 
2.43.0


From 20c2ae674ef8f0f7dc2a88ec8062f861077f65c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 41/64] fix: count all occurrences of the captured values of a
 column

---
 .../mlio/contrib/insights/column_analyzer.cc        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 175245e..02ff2a8 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -139,12 +139,15 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             auto should_capture = capture_columns_->find(feature_idx) != capture_columns_->end();
 
             // Capture the values if specified.
-            if (should_capture && !stats.str_captured_unique_values_overflowed) {
-                if (stats.str_captured_unique_values.size() < max_capture_count_) {
-                    ++stats.str_captured_unique_values[cell];
+            if (should_capture) {
+                auto captured = stats.str_captured_unique_values.find(cell);
+                if (captured != stats.str_captured_unique_values.end()) {
+                    ++captured->second;
                 }
-                else if (stats.str_captured_unique_values.find(cell) ==
-                         stats.str_captured_unique_values.end()) {
+                else if (stats.str_captured_unique_values.size() < max_capture_count_) {
+                    stats.str_captured_unique_values.emplace(cell, 1);
+                }
+                else {
                     // If the value isn't present but we're not adding it
                     // because we're at a limit then we should flag that we
                     // have overflowed.
-- 
2.43.0


From 606e8e482eeeacb0e08fff56ad31b8c0cc7ae022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 42/64] fix: leave the padding of the last example out of the
 column statistics

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 02ff2a8..3ff9248 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -15,6 +15,7 @@
 
 #include "column_analyzer.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <sstream>
@@ -58,7 +59,12 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         std::size_t string_column_count = 0.0;
         std::size_t string_column_length_sum = 0;
 
-        for (const std::string &cell : cells) {
+        // The rows that pad the last example are not part of the dataset.
+        std::size_t num_rows = cells.size() - std::min(example.padding, cells.size());
+
+        for (std::size_t row = 0; row < num_rows; row++) {
+            const std::string &cell = cells[row];
+
             // Capture the first Example.
             if (stats.rows_seen == 0) {
                 stats.example_value = cell;
-- 
2.43.0


From b85a4dcc2f3479487555d7314dfbc3de712b65a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 43/64] fix: let a failing allocation in the CSV tokenizer
 surface as an error

push_char() appends to a string; marked noexcept it terminated the process
when the string could not grow.
---
 src/mlio/csv_record_tokenizer.cc | 2 +-
 src/mlio/csv_record_tokenizer.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/csv_record_tokenizer.cc b/src/mlio/csv_record_tokenizer.cc
index 06475a1..031571d 100644
--- a/src/mlio/csv_record_tokenizer.cc
+++ b/src/mlio/csv_record_tokenizer.cc
@@ -131,7 +131,7 @@ inline bool Csv_record_tokenizer::try_get_next_char(char &chr) noexcept
     return true;
 }
 
-inline void Csv_record_tokenizer::push_char(char chr) noexcept
+inline void Csv_record_tokenizer::push_char(char chr)
 {
     if (max_field_length_ && value_.size() == *max_field_length_) {
         truncated_ = true;
diff --git a/src/mlio/csv_record_tokenizer.h b/src/mlio/csv_record_tokenizer.h
index c917693..1ed9194 100644
--- a/src/mlio/csv_record_tokenizer.h
+++ b/src/mlio/csv_record_tokenizer.h
@@ -63,7 +63,7 @@ private:
 
     bool try_get_next_char(char &chr) noexcept;
 
-    void push_char(char chr) noexcept;
+    void push_char(char chr);
 
     stdx::span<const char> text_{};
     stdx::span<const char>::iterator text_pos_ = text_.begin();
-- 
2.43.0


From f8125c0f4fcbd6e19e6ad10a8470e02678b8839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 44/64] fix: do not copy the column filters in should_skip

The function is noexcept; a failing copy terminated the process.
---
 src/mlio/csv_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 5191ef1..df35aec 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -416,14 +416,14 @@ Intrusive_ptr<const Schema> Csv_reader::init_parsers_and_make_schema()
 
 bool Csv_reader::should_skip(std::size_t index, const std::string &name) const noexcept
 {
-    auto uci = params_.use_columns_by_index;
+    const auto &uci = params_.use_columns_by_index;
     if (!uci.empty()) {
         if (uci.find(index) == uci.end()) {
             return true;
         }
     }
 
-    auto ucn = params_.use_columns;
+    const auto &ucn = params_.use_columns;
     if (!ucn.empty()) {
         if (ucn.find(name) == ucn.end()) {
             return true;
-- 
2.43.0


From 8d5b7d3a64fb4aa34b324cc658538a4b1445f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 45/64] fix: reserve space for the graph nodes before making
 them

If storing a node failed, the nodes that were not stored yet got destroyed
while the graph was taken for complete; the next epoch used them.
---
 src/mlio/parallel_data_reader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index a82e5d0..57bef77 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -209,6 +209,10 @@ void Parallel_data_reader::init_graph()
 
     flw::graph &g = graph_->obj;
 
+    // Make sure that storing the nodes cannot fail halfway through and
+    // leave an incomplete graph behind.
+    graph_->nodes.reserve(5);
+
     // Source
     auto src_node = std::make_unique<flw::source_node<Batch_msg>>(
         g,
-- 
2.43.0


From ebc4a23251e6fd20d8c51136b0fe0e54ab1e34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 46/64] fix: keep a copy of the options in a parser

make_parser() returned parsers that refer to the options they were made
with, which need not outlive the call.
---
 src/mlio/parser.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mlio/parser.cc b/src/mlio/parser.cc
index b338d13..23821d2 100644
--- a/src/mlio/parser.cc
+++ b/src/mlio/parser.cc
@@ -53,8 +53,9 @@ template<Data_type dt>
 Return_if<dt == Data_type::float32 || dt == Data_type::float64>
 make_parser_core(const Parser_options &opts)
 {
-    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
-        return try_parse_float(s, at<dt>(arr, index), {&opts.nan_values});
+    return [nan_values = opts.nan_values](
+               std::string_view s, Device_array_span arr, std::size_t index) {
+        return try_parse_float(s, at<dt>(arr, index), {&nan_values});
     };
 }
 
@@ -67,8 +68,8 @@ Return_if<dt == Data_type::int8  || dt == Data_type::int16  || dt == Data_type::
 // clang-format on
 make_parser_core(const Parser_options &opts)
 {
-    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
-        return try_parse_int(s, at<dt>(arr, index), {opts.base});
+    return [base = opts.base](std::string_view s, Device_array_span arr, std::size_t index) {
+        return try_parse_int(s, at<dt>(arr, index), {base});
     };
 }
 
-- 
2.43.0


From cc15d4074baa5ff3c290ba9ddbd42b243509ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 47/64] fix: parse integers in the requested base

Parser_options::base (number_base in Python) was ignored.
---
 include/mlio/util/number.h |  6 ++++--
 src/mlio/parser.cc         |  6 +++---
 src/mlio/util/number.cc    | 14 +++++---------
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/mlio/util/number.h b/include/mlio/util/number.h
index a4aabda..46522a9 100644
--- a/include/mlio/util/number.h
+++ b/include/mlio/util/number.h
@@ -46,7 +46,7 @@ try_parse_float<double>(std::string_view s, double &result, const Float_parse_op
 // clang-format on
 
 struct MLIO_API Int_parse_options {
-    int base{};
+    int base = 10;
 };
 
 template<typename T>
@@ -83,7 +83,9 @@ try_parse_int<std::uint64_t>(std::string_view s, std::uint64_t &result, const In
 // clang-format on
 
 MLIO_API
-Parse_result try_parse_size_t(std::string_view s, std::size_t &result) noexcept;
+Parse_result try_parse_size_t(std::string_view s,
+                              std::size_t &result,
+                              const Int_parse_options &opts = {}) noexcept;
 
 }  // namespace abi_v1
 }  // namespace mlio
diff --git a/src/mlio/parser.cc b/src/mlio/parser.cc
index 23821d2..0b9084b 100644
--- a/src/mlio/parser.cc
+++ b/src/mlio/parser.cc
@@ -34,10 +34,10 @@ decltype(auto) at(Device_array_span arr, std::size_t index) noexcept
 }
 
 template<Data_type dt>
-Return_if<dt == Data_type::size> make_parser_core(const Parser_options &)
+Return_if<dt == Data_type::size> make_parser_core(const Parser_options &opts)
 {
-    return [](std::string_view s, Device_array_span arr, std::size_t index) {
-        return try_parse_size_t(s, at<dt>(arr, index));
+    return [base = opts.base](std::string_view s, Device_array_span arr, std::size_t index) {
+        return try_parse_size_t(s, at<dt>(arr, index), {base});
     };
 }
 
diff --git a/src/mlio/util/number.cc b/src/mlio/util/number.cc
index c12c2ff..3485ac2 100644
--- a/src/mlio/util/number.cc
+++ b/src/mlio/util/number.cc
@@ -44,11 +44,6 @@ struct parser_traits<double> {
     static constexpr bool (*parse_func)(absl::string_view s, double *result) = absl::SimpleAtod;
 };
 
-template<typename T>
-struct parser_traits<T, std::enable_if_t<std::is_integral_v<T>>> {
-    static constexpr bool (*parse_func)(absl::string_view s, T      *result) = absl::SimpleAtoi;
-};
-
 // clang-format on
 
 template<typename T>
@@ -80,13 +75,13 @@ Parse_result try_parse_float_core(std::string_view s, T &result, const Float_par
 
 template<typename T>
 std::enable_if_t<sizeof(T) >= 4, Parse_result>
-try_parse_int_core(std::string_view s, T &result, const Int_parse_options &) noexcept
+try_parse_int_core(std::string_view s, T &result, const Int_parse_options &opts) noexcept
 {
     // Do not use 0; otherwise we cannot distinguish between a failure
     // and an overflow for unsigned types.
     T v = 1;
 
-    if (!parser_traits<T>::parse_func(s, &v)) {
+    if (!absl::numbers_internal::safe_strtoi_base(s, &v, opts.base)) {
         if (v == std::numeric_limits<T>::max() || v == std::numeric_limits<T>::min()) {
             return Parse_result::overflowed;
         }
@@ -174,9 +169,10 @@ try_parse_int<std::uint64_t>(std::string_view s, std::uint64_t &result, const In
 
 // clang-format on
 
-Parse_result try_parse_size_t(std::string_view s, std::size_t &result) noexcept
+Parse_result
+try_parse_size_t(std::string_view s, std::size_t &result, const Int_parse_options &opts) noexcept
 {
-    return try_parse_int(s, result);
+    return try_parse_int(s, result, opts);
 }
 
 }  // namespace abi_v1
-- 
2.43.0


From 3a3bc5360550b8f641d1650af3885907b7f65628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 48/64] fix: validate the row pointers that a CSR tensor holds

The size check dereferenced the argument after it had been moved from,
so no CSR tensor could be constructed. It does not overflow for the
largest row dimension either.
---
 src/mlio/tensor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index fcfd1b6..a1dc6e2 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -181,7 +181,7 @@ Csr_tensor::Csr_tensor(Size_vector shape,
         num_rows = shp[0];
     }
 
-    if (indptr->size() != num_rows + 1) {
+    if (indptr_->empty() || indptr_->size() - 1 != num_rows) {
         throw std::invalid_argument{
             "The size of the index pointer array does not match the size of the row dimension."};
     }
-- 
2.43.0


From acb079ccba52ad662c74e9888bc1e33c014900ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 49/64] fix: let Coo_tensor::indices report a dimension that
 does not exist

It was declared noexcept, so the exception of at() ended the process.
---
 include/mlio/tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mlio/tensor.h b/include/mlio/tensor.h
index 22590d3..a91a9cd 100644
--- a/include/mlio/tensor.h
+++ b/include/mlio/tensor.h
@@ -157,12 +157,12 @@ public:
         return Device_array_view{*data_};
     }
 
-    Device_array_span indices(std::size_t dim) noexcept
+    Device_array_span indices(std::size_t dim)
     {
         return *coordinates_.at(dim);
     }
 
-    Device_array_view indices(std::size_t dim) const noexcept
+    Device_array_view indices(std::size_t dim) const
     {
         return *coordinates_.at(dim);
     }
-- 
2.43.0


From 29d0a309023a0c5c1d0a7d3bbb8676a524271dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 50/64] fix: do not accept tensors whose shape exceeds their
 data

The number of elements that a shape and its strides call for could
overflow, so that a tensor (also one read from a damaged RecordIO
record) could claim more elements than its data has. A tensor with an
empty dimension could be refused.
---
 src/mlio/tensor.cc | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index a1dc6e2..fd98fae 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -15,7 +15,8 @@
 
 #include "mlio/tensor.h"
 
-#include <cstdlib>
+#include <algorithm>
+#include <limits>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -64,7 +65,11 @@ Ssize_vector Tensor::default_strides(const Size_vector &shape)
 
     auto d = shape.rbegin();
     for (auto s = strides.rbegin() + 1; s < strides.rend(); ++s, ++d) {
-        *s = *(s - 1) * as_ssize(*d);
+        std::size_t stride = as_size(*(s - 1));
+        if (*d != 0 && stride > std::numeric_limits<std::size_t>::max() / *d) {
+            throw std::invalid_argument{"The shape is too large."};
+        }
+        *s = as_ssize(stride * *d);
     }
 
     return strides;
@@ -99,17 +104,40 @@ void Dense_tensor::validate_data_size() const
         return;
     }
 
+    // A tensor with an empty dimension has no elements.
+    if (std::find(shape().begin(), shape().end(), 0) != shape().end()) {
+        return;
+    }
+
     auto stride_pos = strides().begin();
 
-    std::size_t last_idx = 0;
+    // The number of elements that follow the last element we know that
+    // the tensor has; the computation must not overflow.
+    std::size_t remaining = data_->size();
+    bool is_covered = remaining != 0;
+    if (is_covered) {
+        remaining--;
+    }
+
     for (std::size_t dim : shape()) {
-        last_idx += (dim - 1) * as_size(std::abs(*stride_pos));
+        std::size_t stride = as_size(*stride_pos);
+        if (*stride_pos < 0) {
+            stride = 0 - stride;
+        }
+
+        if (dim != 1 && stride != 0) {
+            if (dim - 1 > remaining / stride) {
+                is_covered = false;
+                break;
+            }
+
+            remaining -= (dim - 1) * stride;
+        }
 
         ++stride_pos;
     }
 
-    std::size_t expected_size = last_idx + 1;
-    if (expected_size > data_->size()) {
+    if (!is_covered) {
         throw std::invalid_argument{
             "The size of the data array does not match the specified shape."};
     }
-- 
2.43.0


From ae50159da870fd626e1511a250705b8590b2eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 51/64] fix: do not take images for bad ones when out of memory

---
 src/mlio/image_reader.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 1063a0e..0d162a2 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -18,6 +18,7 @@
 #ifdef MLIO_BUILD_IMAGE_READER
 
 #include <cstddef>
+#include <new>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -39,6 +40,18 @@
 
 namespace mlio {
 inline namespace abi_v1 {
+namespace {
+
+// OpenCV reports out-of-memory as an ordinary exception. It says nothing
+// about the image though, so it must not be treated as a bad instance.
+void throw_if_out_of_memory(const cv::Exception &e)
+{
+    if (e.code == cv::Error::StsNoMem) {
+        throw std::bad_alloc{};
+    }
+}
+
+}  // namespace
 
 Image_reader::Image_reader(Data_reader_params params, Image_reader_params img_params)
     : Parallel_data_reader{std::move(params)}, params_{std::move(img_params)}
@@ -232,6 +245,8 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
             cv::cvtColor(tmp, tmp, code);
         }
         catch (const cv::Exception &e) {
+            throw_if_out_of_memory(e);
+
             if (warn_bad_instances() || error_bad_example_) {
                 auto msg = fmt::format(
                     "The BGR2RGB operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
@@ -264,6 +279,8 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
         decoded_img = cv::imdecode(buf, mode);
     }
     catch (const cv::Exception &e) {
+        throw_if_out_of_memory(e);
+
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
                 "The image decode operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
@@ -350,6 +367,8 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
         cv::resize(src, dst, cv::Size{new_rows, new_cols}, 0, 0);
     }
     catch (const cv::Exception &e) {
+        throw_if_out_of_memory(e);
+
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
                 "The image resize operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
@@ -406,6 +425,8 @@ bool Image_reader::crop(cv::Mat &src, cv::Mat &dst, const Instance &instance) co
         src(roi).copyTo(dst);
     }
     catch (const cv::Exception &e) {
+        throw_if_out_of_memory(e);
+
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
                 "The image crop operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
-- 
2.43.0


From 2a835119c5c853fe037254a91200046639b93bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 52/64] fix: refuse image sizes that do not fit the types of
 OpenCV

---
 src/mlio/image_reader.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 0d162a2..df9ae86 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -18,6 +18,8 @@
 #ifdef MLIO_BUILD_IMAGE_READER
 
 #include <cstddef>
+#include <cstdint>
+#include <limits>
 #include <new>
 #include <stdexcept>
 
@@ -61,6 +63,16 @@ Image_reader::Image_reader(Data_reader_params params, Image_reader_params img_pa
             "The dimensions of the output image must be entered in (channels, height, width) format."};
     }
 
+    for (std::size_t dim : params_.image_dimensions) {
+        if (dim > as_size(std::numeric_limits<int>::max())) {
+            throw std::invalid_argument{"The dimensions of the output image are too large."};
+        }
+    }
+
+    if (params_.resize && *params_.resize > as_size(std::numeric_limits<int>::max())) {
+        throw std::invalid_argument{"The size to which the images should be resized is too large."};
+    }
+
     std::copy(params_.image_dimensions.begin(), params_.image_dimensions.end(), img_dims_.begin());
 
     error_bad_example_ = this->params().bad_example_handling == Bad_example_handling::error;
@@ -349,10 +361,10 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
 
 bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance) const
 {
-    int new_cols{};
-    int new_rows{};
+    std::int64_t new_cols{};
+    std::int64_t new_rows{};
 
-    int resize_value = static_cast<int>(*params_.resize);
+    auto resize_value = static_cast<std::int64_t>(*params_.resize);
 
     if (src.rows > src.cols) {
         new_cols = resize_value * src.rows / src.cols;
@@ -364,7 +376,12 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     }
 
     try {
-        cv::resize(src, dst, cv::Size{new_rows, new_cols}, 0, 0);
+        if (new_cols > std::numeric_limits<int>::max() ||
+            new_rows > std::numeric_limits<int>::max()) {
+            CV_Error(cv::Error::StsOutOfRange, "The resized image is too large.");
+        }
+
+        cv::resize(src, dst, cv::Size{static_cast<int>(new_rows), static_cast<int>(new_cols)}, 0, 0);
     }
     catch (const cv::Exception &e) {
         throw_if_out_of_memory(e);
-- 
2.43.0


From 0b9f8a871ecb619970806d87d81b80b52c174fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 53/64] fix: do not read a feature and a label of the same name
 into one attribute

---
 src/mlio/recordio_protobuf_reader.cc | 38 +++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 414736b..677c983 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -86,6 +86,8 @@ public:
 private:
     const aialgs::data::Record *parse_proto(const Instance &instance) const;
 
+    bool check_name_clash(const std::string &name, const aialgs::data::Record &proto_msg) const;
+
     bool decode_feature(const std::string &name, const aialgs::data::Value &value);
 
     template<Data_type dt, typename Protobuf_tensor>
@@ -518,7 +520,15 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
     std::size_t num_features_read = 0;
 
     for (auto &[label, value] : proto_msg->label()) {
-        if (!decode_feature("label_" + label, value)) {
+        std::string name = "label_" + label;
+
+        // Make sure that there is no feature that has the same name;
+        // otherwise we would read one attribute twice and miss another.
+        if (!check_name_clash(name, *proto_msg)) {
+            return false;
+        }
+
+        if (!decode_feature(name, value)) {
             return false;
         }
 
@@ -586,6 +596,32 @@ Recordio_protobuf_reader::Decoder::parse_proto(const Instance &instance) const
     return nullptr;
 }
 
+bool Recordio_protobuf_reader::Decoder::check_name_clash(
+    const std::string &name, const aialgs::data::Record &proto_msg) const
+{
+    if (proto_msg.features().count(name) == 0) {
+        return true;
+    }
+
+    if (state_->warn_bad_instance || state_->error_bad_example) {
+        auto msg = fmt::format(
+            "The instance #{1:n} in the data store '{0}' has more than one feature named '{2}'.",
+            instance_->data_store().id(),
+            instance_->index(),
+            name);
+
+        if (state_->warn_bad_instance) {
+            logger::warn(msg);
+        }
+
+        if (state_->error_bad_example) {
+            throw Invalid_instance_error{msg};
+        }
+    }
+
+    return false;
+}
+
 bool Recordio_protobuf_reader::Decoder::decode_feature(const std::string &name,
                                                        const aialgs::data::Value &value)
 {
-- 
2.43.0


From 06996aca6b8077c8fc755880558da451c3a2ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 54/64] fix: release the GIL while a data reader is reset or
 destroyed

---
 src/mlio-py/mlio/core/data_reader.cc     | 52 +++++++++++++++++++++---
 src/mlio-py/mlio/core/py_memory_block.cc |  4 ++
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index bc2c441..95b8d4e 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -27,6 +27,47 @@ using namespace pybind11::literals;
 namespace pymlio {
 namespace {
 
+/// Holds a data reader on behalf of its Python object.
+///
+/// The destructor of a data reader waits for its background threads
+/// which can be waiting for the GIL themselves (e.g. to call a Python
+/// log message handler). Therefore we have to release the GIL first.
+template<typename T>
+class Data_reader_holder : public Intrusive_ptr<T> {
+public:
+    using Intrusive_ptr<T>::Intrusive_ptr;
+
+    // NOLINTNEXTLINE(google-explicit-constructor, hicpp-explicit-conversions)
+    Data_reader_holder(Intrusive_ptr<T> reader) noexcept : Intrusive_ptr<T>{std::move(reader)}
+    {}
+
+    Data_reader_holder(const Data_reader_holder &) = default;
+
+    Data_reader_holder(Data_reader_holder &&) noexcept = default;
+
+    ~Data_reader_holder()
+    {
+        if (this->get() != nullptr) {
+            py::gil_scoped_release rel_gil;
+
+            static_cast<Intrusive_ptr<T> &>(*this) = nullptr;
+        }
+    }
+
+public:
+    Data_reader_holder &operator=(const Data_reader_holder &) = default;
+
+    Data_reader_holder &operator=(Data_reader_holder &&) noexcept = default;
+};
+
+}  // namespace
+}  // namespace pymlio
+
+PYBIND11_DECLARE_HOLDER_TYPE(T, pymlio::Data_reader_holder<T>, true);
+
+namespace pymlio {
+namespace {
+
 class Py_data_iterator {
 public:
     explicit Py_data_iterator(Data_reader &reader, py::object parent)
@@ -586,7 +627,7 @@ void register_data_readers(py::module &m)
         .def_readwrite("nan_values", &Parser_options::nan_values)
         .def_readwrite("number_base", &Parser_options::base);
 
-    py::class_<Data_reader, Py_data_reader, Intrusive_ptr<Data_reader>>(
+    py::class_<Data_reader, Py_data_reader, Data_reader_holder<Data_reader>>(
         m,
         "DataReader",
         "Represents an interface for classes that read examples from a "
@@ -608,6 +649,7 @@ void register_data_readers(py::module &m)
              "Returns the ``Schema`` of the dataset.")
         .def("reset",
              &Data_reader::reset,
+             py::call_guard<py::gil_scoped_release>(),
              "Resets the state of the reader. Calling ``read_example()`` the "
              "next time will start reading from the beginning of the dataset.")
         .def("__iter__",
@@ -625,7 +667,7 @@ void register_data_readers(py::module &m)
              The returned number can be greater than expected as MLIO
              reads ahead the dataset in background.)");
 
-    py::class_<Csv_reader, Data_reader, Intrusive_ptr<Csv_reader>>(
+    py::class_<Csv_reader, Data_reader, Data_reader_holder<Csv_reader>>(
         m, "CsvReader", "Represents a ``Data_reader`` for reading CSV datasets.")
         .def(py::init<>(&make_csv_reader),
              "data_reader_params"_a,
@@ -639,7 +681,7 @@ void register_data_readers(py::module &m)
                 See ``CsvReaderParams``.
             )");
 
-    py::class_<Image_reader, Data_reader, Intrusive_ptr<Image_reader>>(
+    py::class_<Image_reader, Data_reader, Data_reader_holder<Image_reader>>(
         m, "ImageReader", "Represents a ``Data_reader`` for reading Image datasets.")
         .def(py::init<>(&make_image_reader),
              "data_reader_params"_a,
@@ -653,7 +695,7 @@ void register_data_readers(py::module &m)
                 See ``ImageReaderParams``.
             )");
 
-    py::class_<Recordio_protobuf_reader, Data_reader, Intrusive_ptr<Recordio_protobuf_reader>>(
+    py::class_<Recordio_protobuf_reader, Data_reader, Data_reader_holder<Recordio_protobuf_reader>>(
         m, "RecordIOProtobufReader")
         .def(py::init<>(&make_recordio_protobuf_reader),
              "data_reader_params"_a,
@@ -664,7 +706,7 @@ void register_data_readers(py::module &m)
                 See ``DataReaderParams``.
             )");
 
-    py::class_<Text_line_reader, Data_reader, Intrusive_ptr<Text_line_reader>>(m, "TextLineReader")
+    py::class_<Text_line_reader, Data_reader, Data_reader_holder<Text_line_reader>>(m, "TextLineReader")
         .def(py::init<>(&make_text_line_reader),
              "data_reader_params"_a,
              R"(
diff --git a/src/mlio-py/mlio/core/py_memory_block.cc b/src/mlio-py/mlio/core/py_memory_block.cc
index 9bc970a..95ea5c6 100644
--- a/src/mlio-py/mlio/core/py_memory_block.cc
+++ b/src/mlio-py/mlio/core/py_memory_block.cc
@@ -19,11 +19,15 @@ namespace pymlio {
 
 Py_memory_block::~Py_memory_block()
 {
+    pybind11::gil_scoped_acquire acq_gil;
+
     ::PyBuffer_Release(&buffer_);
 }
 
 py_mutable_memory_block::~py_mutable_memory_block()
 {
+    pybind11::gil_scoped_acquire acq_gil;
+
     ::PyBuffer_Release(&buffer_);
 }
 
-- 
2.43.0


From 0ee58972a6ab6fd76d6b574d85c4f67e4adee9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:40 +0000
Subject: [PATCH 55/64] fix: keep the log message handler alive while it is
 called

---
 include/mlio/logging.h |  2 +-
 src/mlio/logger.cc     | 42 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/include/mlio/logging.h b/include/mlio/logging.h
index 1fa7ac7..faad972 100644
--- a/include/mlio/logging.h
+++ b/include/mlio/logging.h
@@ -34,7 +34,7 @@ using Log_message_handler = std::function<void(Log_level, std::string_view)>;
 /// The passsed handler can be called by multiple threads
 /// simultaneously; therefore it should be thread-safe.
 MLIO_API
-Log_message_handler set_log_message_handler(Log_message_handler handler) noexcept;
+Log_message_handler set_log_message_handler(Log_message_handler handler);
 
 MLIO_API
 void set_log_level(Log_level level) noexcept;
diff --git a/src/mlio/logger.cc b/src/mlio/logger.cc
index b3b2a26..bef475f 100644
--- a/src/mlio/logger.cc
+++ b/src/mlio/logger.cc
@@ -15,7 +15,10 @@
 
 #include "mlio/logger.h"
 
+#include <atomic>
 #include <functional>
+#include <memory>
+#include <mutex>
 #include <type_traits>
 #include <utility>
 
@@ -26,9 +29,20 @@ inline namespace abi_v1 {
 namespace logger {
 namespace {
 
-Log_message_handler msg_handler_{};
+std::mutex msg_handler_mutex_{};
 
-Log_level level_{Log_level::warning};
+// The background threads that call the handler hold a reference to it so
+// that it can be replaced in the meantime.
+std::shared_ptr<Log_message_handler> msg_handler_{};
+
+std::atomic<Log_level> level_{Log_level::warning};
+
+std::shared_ptr<Log_message_handler> get_message_handler() noexcept
+{
+    std::lock_guard<std::mutex> lock{msg_handler_mutex_};
+
+    return msg_handler_;
+}
 
 }  // namespace
 
@@ -36,9 +50,10 @@ namespace detail {
 
 void handle_message(Log_level level, std::string_view msg) noexcept
 {
-    if (msg_handler_ != nullptr) {
+    std::shared_ptr<Log_message_handler> handler = get_message_handler();
+    if (handler != nullptr) {
         try {
-            msg_handler_(level, msg);
+            (*handler)(level, msg);
         }
         catch (...) {
         }
@@ -67,9 +82,24 @@ bool is_enabled_for(Log_level level) noexcept
 
 }  // namespace logger
 
-Log_message_handler set_log_message_handler(Log_message_handler handler) noexcept
+Log_message_handler set_log_message_handler(Log_message_handler handler)
 {
-    return std::exchange(logger::msg_handler_, std::move(handler));
+    std::shared_ptr<Log_message_handler> ptr{};
+    if (handler != nullptr) {
+        ptr = std::make_shared<Log_message_handler>(std::move(handler));
+    }
+
+    {
+        std::lock_guard<std::mutex> lock{logger::msg_handler_mutex_};
+
+        std::swap(logger::msg_handler_, ptr);
+    }
+
+    if (ptr == nullptr) {
+        return {};
+    }
+
+    return *ptr;
 }
 
 void set_log_level(Log_level level) noexcept
-- 
2.43.0


From 42dcab5c341b88cb46918749773719624e7c07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:59 +0000
Subject: [PATCH 56/64] fix: report invalid text of a string tensor each time
 its buffer is asked for

---
 src/mlio-py/mlio/core/py_buffer.cc       |  3 ++
 src/mlio-py/mlio/core/py_device_array.cc | 36 ++++++++++++++++--------
 src/mlio-py/mlio/core/py_device_array.h  |  3 +-
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index b90449a..bdef0a1 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -280,6 +280,9 @@ std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
     bool writable = !cpy;
 
     py::buffer_info info = buf.request(writable);
+    if (::PyErr_Occurred() != nullptr) {
+        throw py::error_already_set();
+    }
 
     std::optional<Data_type> dt = get_data_type(info);
     if (dt == std::nullopt) {
diff --git a/src/mlio-py/mlio/core/py_device_array.cc b/src/mlio-py/mlio/core/py_device_array.cc
index 73e138d..7ebf422 100644
--- a/src/mlio-py/mlio/core/py_device_array.cc
+++ b/src/mlio-py/mlio/core/py_device_array.cc
@@ -41,23 +41,35 @@ void *Py_device_array::data() noexcept
     return span_.data();
 }
 
-void *Py_device_array::make_or_get_string_buffer()
+void *Py_device_array::make_or_get_string_buffer() noexcept
 {
     if (string_buf_.empty()) {
         string_buf_.reserve(span_.size());
-        try {
-            for (py::str obj : span_.as<std::string>()) {
-                string_buf_.push_back(obj.release().ptr());
+
+        for (const std::string &s : span_.as<std::string>()) {
+            auto size = static_cast<::Py_ssize_t>(s.size());
+
+            ::PyObject *obj = ::PyUnicode_DecodeUTF8(s.data(), size, nullptr);
+            if (obj == nullptr) {
+                ::PyErr_Clear();
+
+                // We still have to provide a valid buffer, as most consumers
+                // of it check for an error only after they have accessed it.
+                obj = py::none{}.release().ptr();
+
+                has_invalid_string_ = true;
             }
+
+            string_buf_.push_back(obj);
         }
-        catch (std::runtime_error &) {
-            PyErr_SetString(
-                PyExc_ValueError,
-                "The string Tensor contains an invalid UTF-8 sequence. Please make sure that you "
-                "specify an explicit text encoding if the text is supposed to be in a different "
-                "encoding.");
-            return nullptr;
-        }
+    }
+
+    if (has_invalid_string_) {
+        PyErr_SetString(
+            PyExc_ValueError,
+            "The string Tensor contains an invalid UTF-8 sequence. Please make sure that you "
+            "specify an explicit text encoding if the text is supposed to be in a different "
+            "encoding.");
     }
 
     return string_buf_.data();
diff --git a/src/mlio-py/mlio/core/py_device_array.h b/src/mlio-py/mlio/core/py_device_array.h
index cafc0c1..0613ca0 100644
--- a/src/mlio-py/mlio/core/py_device_array.h
+++ b/src/mlio-py/mlio/core/py_device_array.h
@@ -66,12 +66,13 @@ public:
     }
 
 private:
-    void *make_or_get_string_buffer();
+    void *make_or_get_string_buffer() noexcept;
 
 private:
     mlio::Intrusive_ptr<mlio::Tensor> tensor_;
     mlio::Device_array_span span_;
     std::vector<PyObject *> string_buf_{};
+    bool has_invalid_string_{};
 };
 
 }  // namespace pymlio
-- 
2.43.0


From 91a075b9acf5f7ea28f6f364e78848b794fafe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 57/64] fix: keep an example alive while it is iterated over in
 Python

---
 src/mlio-py/mlio/core/example.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/core/example.cc b/src/mlio-py/mlio/core/example.cc
index d9ae92a..126508a 100644
--- a/src/mlio-py/mlio/core/example.cc
+++ b/src/mlio-py/mlio/core/example.cc
@@ -76,10 +76,13 @@ void register_example(py::module &m)
              [](Example &self, std::size_t index) {
                  return index < self.features().size();
              })
-        .def("__iter__",
-             [](Example &self) {
-                 return py::make_iterator(self.features().begin(), self.features().end());
-             })
+        .def(
+            "__iter__",
+            [](Example &self) {
+                return py::make_iterator(self.features().begin(), self.features().end());
+            },
+            // The iterator refers to the features held by the example.
+            py::keep_alive<0, 1>())
         .def("__repr__", &Example::repr)
         .def_property_readonly("schema", &Example::schema, "Gets the schema of the example.")
         .def_readwrite("padding",
-- 
2.43.0


From 3984bdfcc16a0e874a665001c044bd2742b9bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 58/64] fix: honour the strides of the buffers that tensors are
 made from in Python

---
 src/mlio-py/mlio/core/py_buffer.cc | 140 +++++++++++++++++++++++++----
 src/mlio-py/mlio/core/py_buffer.h  |   6 +-
 src/mlio-py/mlio/core/tensor.cc    |   5 +-
 src/mlio-py/mlio/integ/numpy.py    |   6 +-
 4 files changed, 133 insertions(+), 24 deletions(-)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index bdef0a1..7445059 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -15,8 +15,10 @@
 
 #include "py_buffer.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -219,23 +221,119 @@ std::optional<Data_type> get_data_type(const py::buffer_info &info)
     return {};
 }
 
+// Tells whether the elements of the buffer are laid out in row-major order
+// in a contiguous memory block.
+bool is_row_major(const py::buffer_info &info)
+{
+    if (info.size == 0) {
+        return true;
+    }
+
+    py::ssize_t stride = info.itemsize;
+
+    for (std::size_t i = info.shape.size(); i > 0; i--) {
+        if (info.shape[i - 1] != 1) {
+            if (info.strides[i - 1] != stride) {
+                return false;
+            }
+            stride *= info.shape[i - 1];
+        }
+    }
+
+    return true;
+}
+
+// Tells whether the elements of the buffer are laid out, in whatever order,
+// in a contiguous memory block.
+bool is_contiguous(const py::buffer_info &info)
+{
+    if (info.size == 0) {
+        return true;
+    }
+
+    std::vector<std::size_t> dims{};
+    for (std::size_t i = 0; i < info.shape.size(); i++) {
+        if (info.shape[i] != 1) {
+            dims.push_back(i);
+        }
+    }
+
+    std::sort(dims.begin(), dims.end(), [&info](auto i, auto j) {
+        return info.strides[i] < info.strides[j];
+    });
+
+    py::ssize_t stride = info.itemsize;
+
+    for (std::size_t i : dims) {
+        if (info.strides[i] != stride) {
+            return false;
+        }
+        stride *= info.shape[i];
+    }
+
+    return true;
+}
+
+// Gets the elements of the buffer in row-major order, or in the order in which
+// they are laid out in a contiguous memory block.
+template<typename T>
+std::vector<T> get_elements(const py::buffer_info &info, bool in_memory_order)
+{
+    auto size = static_cast<std::size_t>(info.size);
+
+    std::vector<T> lst;
+
+    if (in_memory_order) {
+        auto *data = static_cast<T *>(info.ptr);
+
+        lst.assign(data, data + size);
+
+        return lst;
+    }
+
+    lst.reserve(size);
+
+    std::vector<py::ssize_t> idx(info.shape.size());
+
+    auto *ptr = static_cast<char *>(info.ptr);
+
+    while (lst.size() < size) {
+        T value{};
+
+        // The elements of a strided buffer are not necessarily aligned.
+        std::memcpy(&value, ptr, sizeof(T));
+
+        lst.push_back(value);
+
+        for (std::size_t i = idx.size(); i > 0; i--) {
+            ptr += info.strides[i - 1];
+
+            if (++idx[i - 1] < info.shape[i - 1]) {
+                break;
+            }
+
+            ptr -= info.strides[i - 1] * idx[i - 1];
+
+            idx[i - 1] = 0;
+        }
+    }
+
+    return lst;
+}
+
 template<Data_type dt>
 struct Make_cpu_array_op {
     using T = data_type_t<dt>;
 
-    std::unique_ptr<Device_array> operator()(py::buffer_info &&info, bool cpy)
+    std::unique_ptr<Device_array> operator()(py::buffer_info &&info, bool cpy, bool in_memory_order)
     {
-        auto *data = static_cast<T *>(info.ptr);
-
-        auto size = static_cast<std::size_t>(info.size);
-
         if (cpy) {
-            std::vector<T> lst;
+            return wrap_cpu_array<dt>(get_elements<T>(info, in_memory_order));
+        }
 
-            lst.assign(data, data + size);
+        auto *data = static_cast<T *>(info.ptr);
 
-            return wrap_cpu_array<dt>(std::move(lst));
-        }
+        auto size = static_cast<std::size_t>(info.size);
 
         Py_buffer_container<T> container{data, size, std::move(info)};
 
@@ -245,29 +343,27 @@ struct Make_cpu_array_op {
 
 template<>
 struct Make_cpu_array_op<Data_type::string> {
-    static std::vector<std::string> make_string_list(const py::buffer_info &info)
+    static std::vector<std::string> make_string_list(const py::buffer_info &info, bool in_memory_order)
     {
         auto size = static_cast<std::size_t>(info.size);
 
         std::vector<std::string> lst;
         lst.reserve(size);
 
-        auto **obj_buffer = static_cast<PyObject **>(info.ptr);
-
-        for (std::size_t i = 0; i < size; i++) {
-            lst.emplace_back(py::cast<std::string>(obj_buffer[i]));
+        for (PyObject *obj : get_elements<PyObject *>(info, in_memory_order)) {
+            lst.emplace_back(py::cast<std::string>(obj));
         }
 
         return lst;
     }
 
-    std::unique_ptr<Device_array> operator()(py::buffer_info &&info, bool cpy)
+    std::unique_ptr<Device_array> operator()(py::buffer_info &&info, bool cpy, bool in_memory_order)
     {
         if (!cpy) {
             throw std::invalid_argument{"A Python string buffer cannot be used without copying."};
         }
 
-        std::vector<std::string> lst = make_string_list(info);
+        std::vector<std::string> lst = make_string_list(info, in_memory_order);
 
         return wrap_cpu_array<Data_type::string>(std::move(lst));
     }
@@ -275,7 +371,7 @@ struct Make_cpu_array_op<Data_type::string> {
 
 }  // namespace
 
-std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
+std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy, bool in_memory_order)
 {
     bool writable = !cpy;
 
@@ -289,7 +385,15 @@ std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
         throw std::invalid_argument{"The Python buffer contains an unsupported data type."};
     }
 
-    return dispatch<Make_cpu_array_op>(*dt, std::move(info), cpy);
+    if (is_row_major(info)) {
+        in_memory_order = true;
+    }
+    else if (in_memory_order ? !is_contiguous(info) : !cpy) {
+        throw std::invalid_argument{
+            "The Python buffer is not contiguous. It can only be copied without strides."};
+    }
+
+    return dispatch<Make_cpu_array_op>(*dt, std::move(info), cpy, in_memory_order);
 }
 
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/py_buffer.h b/src/mlio-py/mlio/core/py_buffer.h
index 8df7cb4..710669e 100644
--- a/src/mlio-py/mlio/core/py_buffer.h
+++ b/src/mlio-py/mlio/core/py_buffer.h
@@ -23,6 +23,10 @@
 
 namespace pymlio {
 
-std::unique_ptr<mlio::Device_array> make_device_array(pybind11::buffer &buf, bool cpy);
+/// @param in_memory_order
+///     A boolean value indicating whether to take the elements in the order in
+///     which they are laid out in memory instead of in row-major order.
+std::unique_ptr<mlio::Device_array>
+make_device_array(pybind11::buffer &buf, bool cpy, bool in_memory_order = false);
 
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/tensor.cc b/src/mlio-py/mlio/core/tensor.cc
index f63869f..272aea5 100644
--- a/src/mlio-py/mlio/core/tensor.cc
+++ b/src/mlio-py/mlio/core/tensor.cc
@@ -35,7 +35,10 @@ Intrusive_ptr<Dense_tensor> make_dense_tensor(Size_vector shape,
                                               std::optional<Ssize_vector> strides,
                                               bool cpy)
 {
-    std::unique_ptr<Device_array> arr = make_device_array(data, cpy);
+    // The strides describe how the elements are laid out in memory.
+    bool in_memory_order = strides.has_value();
+
+    std::unique_ptr<Device_array> arr = make_device_array(data, cpy, in_memory_order);
 
     Ssize_vector strds{};
     if (strides) {
diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index 74ac5c7..192a8b4 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -48,7 +48,7 @@ def as_tensor(arr):
 
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides),
+                       strides=tuple(s // arr.itemsize for s in arr.strides),
                        copy=False)
 
 
@@ -56,6 +56,4 @@ def to_tensor(arr):
     """
     Converts the specified NumPy array to a Tensor.
     """
-    return DenseTensor(arr.shape,
-                       data=arr,
-                       strides=tuple(s // 8 for s in arr.strides))
+    return DenseTensor(arr.shape, data=arr)
-- 
2.43.0


From d12e04a78b02bc01b840aff05a9d8e593c9ac3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:23 +0000
Subject: [PATCH 59/64] fix: do not let Python write to memory slices and
 records

---
 src/mlio-py/mlio/core/memory.cc        | 10 +++-------
 src/mlio-py/mlio/core/py_buffer.cc     | 13 +++++++++++++
 src/mlio-py/mlio/core/py_buffer.h      |  3 +++
 src/mlio-py/mlio/core/record_reader.cc | 10 +++-------
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/mlio-py/mlio/core/memory.cc b/src/mlio-py/mlio/core/memory.cc
index 3c06eda..2ab7149 100644
--- a/src/mlio-py/mlio/core/memory.cc
+++ b/src/mlio-py/mlio/core/memory.cc
@@ -15,6 +15,8 @@
 
 #include "module.h"
 
+#include "py_buffer.h"
+
 namespace py = pybind11;
 
 using namespace mlio;
@@ -25,13 +27,7 @@ void register_memory_slice(py::module &m)
 {
     py::class_<Memory_slice>(m, "MemorySlice", py::buffer_protocol())
         .def_buffer([](Memory_slice &self) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
-            auto data = const_cast<std::byte *>(self.data());
-
-            auto size = static_cast<py::ssize_t>(self.size());
-
-            // TODO(balioglu): Make read-only.
-            return py::buffer_info(data, 1, "B", size);
+            return make_read_only_buffer_info(self.data(), self.size());
         });
 }
 
diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index 7445059..c2b59a2 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -396,4 +396,17 @@ std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy, bool
     return dispatch<Make_cpu_array_op>(*dt, std::move(info), cpy, in_memory_order);
 }
 
+py::buffer_info make_read_only_buffer_info(const std::byte *data, std::size_t size)
+{
+    // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
+    auto *ptr = const_cast<std::byte *>(data);
+
+#if PYBIND11_VERSION_MAJOR > 2 || PYBIND11_VERSION_MINOR >= 5
+    return py::buffer_info(ptr, 1, "B", static_cast<py::ssize_t>(size), /*readonly*/ true);
+#else
+    // pybind11 has no support for read-only buffers prior to v2.5.
+    return py::buffer_info(ptr, 1, "B", static_cast<py::ssize_t>(size));
+#endif
+}
+
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/py_buffer.h b/src/mlio-py/mlio/core/py_buffer.h
index 710669e..6d2ce75 100644
--- a/src/mlio-py/mlio/core/py_buffer.h
+++ b/src/mlio-py/mlio/core/py_buffer.h
@@ -17,6 +17,7 @@
 
 #include <pybind11/pybind11.h>
 
+#include <cstddef>
 #include <memory>
 
 #include <mlio.h>
@@ -29,4 +30,6 @@ namespace pymlio {
 std::unique_ptr<mlio::Device_array>
 make_device_array(pybind11::buffer &buf, bool cpy, bool in_memory_order = false);
 
+pybind11::buffer_info make_read_only_buffer_info(const std::byte *data, std::size_t size);
+
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/record_reader.cc b/src/mlio-py/mlio/core/record_reader.cc
index e372a66..9100621 100644
--- a/src/mlio-py/mlio/core/record_reader.cc
+++ b/src/mlio-py/mlio/core/record_reader.cc
@@ -17,6 +17,8 @@
 
 #include <mlio/record_readers/parquet_record_reader.h>
 
+#include "py_buffer.h"
+
 namespace py = pybind11;
 
 using namespace mlio;
@@ -67,13 +69,7 @@ void register_record_readers(py::module &m)
         m, "Record", py::buffer_protocol(), "Represents an encoded Record read from a data store.")
         .def_property_readonly("kind", &Record::kind)
         .def_buffer([](Record &r) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
-            auto *data = const_cast<std::byte *>(r.payload().data());
-
-            auto size = static_cast<py::ssize_t>(r.payload().size());
-
-            // TODO(balioglu): Make read-only.
-            return py::buffer_info(data, 1, "B", size);
+            return make_read_only_buffer_info(r.payload().data(), r.payload().size());
         });
 
     py::class_<Py_record_iterator>(m, "RecordIterator")
-- 
2.43.0


From 9fe353054eba49e3fdec95afb9ad9e51c199afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:16 +0000
Subject: [PATCH 60/64] fix: hold the GIL while the Python buffer of a tensor
 is released

---
 src/mlio-py/mlio/core/py_buffer.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index c2b59a2..f640d90 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -48,6 +48,24 @@ public:
         : data_{data}, size_{size}, info_{std::move(info)}
     {}
 
+    Py_buffer_container(const Py_buffer_container &) = delete;
+
+    Py_buffer_container(Py_buffer_container &&) noexcept = default;
+
+    ~Py_buffer_container()
+    {
+        // The container can get destroyed by a thread that does not hold the
+        // GIL.
+        py::gil_scoped_acquire acq_gil;
+
+        py::buffer_info info{std::move(info_)};
+    }
+
+public:
+    Py_buffer_container &operator=(const Py_buffer_container &) = delete;
+
+    Py_buffer_container &operator=(Py_buffer_container &&) = delete;
+
 public:
     iterator begin() noexcept
     {
-- 
2.43.0


From a3814d8bedeade15001e66991a0eae38b59a72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:20 +0000
Subject: [PATCH 61/64] fix: convert one-dimensional COO tensors to SciPy
 matrices

---
 src/mlio-py/mlio/integ/scipy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/integ/scipy.py b/src/mlio-py/mlio/integ/scipy.py
index f77556d..41fd0fe 100644
--- a/src/mlio-py/mlio/integ/scipy.py
+++ b/src/mlio-py/mlio/integ/scipy.py
@@ -31,12 +31,16 @@ def to_coo_matrix(tensor):
         raise ValueError("Only one- and two-dimensional COO tensors are "
                          "supported.")
 
+    data = np.array(tensor.data, copy=False)
+
     if len(s) == 1:
         s = (1,) + s
 
-    data = np.array(tensor.data, copy=False)
-    rows = np.array(tensor.indices(0), copy=False)
-    cols = np.array(tensor.indices(1), copy=False)
+        cols = np.array(tensor.indices(0), copy=False)
+        rows = np.zeros_like(cols)
+    else:
+        rows = np.array(tensor.indices(0), copy=False)
+        cols = np.array(tensor.indices(1), copy=False)
 
     return coo_matrix((data, (rows, cols)), s, copy=True)
 
-- 
2.43.0


From 83fd93c8b01132f4c8557f60e1ff7494fa392f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 62/64] fix: do not acquire the GIL after Python has been
 finalized

---
 src/mlio-py/mlio/core/logging.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mlio-py/mlio/core/logging.cc b/src/mlio-py/mlio/core/logging.cc
index 1d7b882..a315ad8 100644
--- a/src/mlio-py/mlio/core/logging.cc
+++ b/src/mlio-py/mlio/core/logging.cc
@@ -34,6 +34,15 @@ public:
 
     ~Py_log_message_handler()
     {
+        // If the handler is never cleared, we get destructed along with
+        // the static objects of the library; that is after Python has
+        // been finalized.
+        if (Py_IsInitialized() == 0) {
+            hdl_.release();
+
+            return;
+        }
+
         py::gil_scoped_acquire acq_gil;
 
         hdl_ = {};
-- 
2.43.0


From c82c365f34c31cb807d75df2d2508bc78baffbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:18 +0000
Subject: [PATCH 63/64] fix: let Python read and set all reader parameters

---
 src/mlio-py/mlio/core/data_reader.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 95b8d4e..0acfe2d 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -434,6 +434,7 @@ void register_data_readers(py::module &m)
         .def_readwrite("num_parallel_reads", &Data_reader_params::num_parallel_reads)
         .def_readwrite("last_example_handling", &Data_reader_params::last_example_handling)
         .def_readwrite("bad_example_handling", &Data_reader_params::bad_example_handling)
+        .def_readwrite("warn_bad_instances", &Data_reader_params::warn_bad_instances)
         .def_readwrite("num_instances_to_skip", &Data_reader_params::num_instances_to_skip)
         .def_readwrite("num_instances_to_read", &Data_reader_params::num_instances_to_read)
         .def_readwrite("shard_index", &Data_reader_params::shard_index)
@@ -573,7 +574,22 @@ void register_data_readers(py::module &m)
         .def_readwrite("comment_char", &Csv_params::comment_char)
         .def_readwrite("allow_quoted_new_lines", &Csv_params::allow_quoted_new_lines)
         .def_readwrite("skip_blank_lines", &Csv_params::skip_blank_lines)
-        .def_readwrite("encoding", &Csv_params::encoding)
+        .def_property(
+            "encoding",
+            [](const Csv_params &self) -> std::optional<std::string> {
+                if (self.encoding) {
+                    return self.encoding->name();
+                }
+                return {};
+            },
+            [](Csv_params &self, std::optional<std::string> encoding) {
+                if (encoding) {
+                    self.encoding = Text_encoding{std::move(encoding.value())};
+                }
+                else {
+                    self.encoding = {};
+                }
+            })
         .def_readwrite("max_field_length", &Csv_params::max_field_length)
         .def_readwrite("max_field_length_handling", &Csv_params::max_field_length_handling)
         .def_readwrite("max_line_length", &Csv_params::max_line_length)
-- 
2.43.0


From 4eebcd35eadbfc2e444d46fcb7f938293fab8e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 64/64] fix: keep the indices of explicit zeros in sparse
 TensorFlow tensors

---
 src/mlio-py/mlio/integ/tensorflow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/integ/tensorflow.py b/src/mlio-py/mlio/integ/tensorflow.py
index 8121ab8..8db9cb5 100644
--- a/src/mlio-py/mlio/integ/tensorflow.py
+++ b/src/mlio-py/mlio/integ/tensorflow.py
@@ -23,10 +23,11 @@ def to_tf(tensor):
     if isinstance(tensor, DenseTensor):
         return tf.convert_to_tensor(as_numpy(tensor))
 
-    mtx = to_coo_matrix(tensor).tocsr()
+    # Sum duplicates and sort the indices, but retain explicit zeros so
+    # that each value has an index.
+    mtx = to_coo_matrix(tensor).tocsr().tocoo()
 
-    non_zero_row_col = mtx.nonzero()
-    indices = np.asmatrix([non_zero_row_col[0], non_zero_row_col[1]])
+    indices = np.asmatrix([mtx.row, mtx.col])
     indices = indices.transpose()
 
     return tf.SparseTensor(indices, mtx.data, mtx.shape)
-- 
2.43.0

