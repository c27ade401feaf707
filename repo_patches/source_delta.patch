From 8cc92ed7764b037c92ba81413fc2b2c972a6abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 01/62] fix: report gcov reads past the end of the file

A truncated .afdo file, or one that cannot be read to its end, was read as
if zeros followed: gcov_read_bytes() returned null without recording the
error, so gcov_close() reported success. Record the error and let every
later read fail.
---
 gcov.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcov.cc b/gcov.cc
index f16437b..a207eac 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -175,6 +175,10 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
 
   CHECK_GT(gcov_var.mode, 0);
   CHECK(bytes < GCOV_BLOCK_BYTE_SIZE);
+  // Nothing read after a failed read is meaningful.
+  if (gcov_var.error) {
+    return 0;
+  }
   if (excess_bytes < bytes) {
     memmove(gcov_var.buffer, gcov_var.buffer + gcov_var.byte_offset, excess_bytes);
     gcov_var.byte_offset = 0;
@@ -188,6 +192,7 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
     gcov_var.byte_length += excess_bytes;
     if (gcov_var.byte_length < bytes) {
       gcov_var.byte_length = 0;
+      gcov_var.error = 1;
       return 0;
     }
   }
-- 
2.43.0


From 77983b2aadbe1d12f00896dd0d28266be0356c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 02/62] fix: report a failed fclose of the gcov file

---
 gcov.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcov.cc b/gcov.cc
index a207eac..b4087c9 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -87,7 +87,9 @@ int gcov_close(void) {
     if (gcov_var.byte_offset && gcov_var.mode < 0) {
       gcov_write_block(gcov_var.byte_offset);
     }
-    fclose(gcov_var.file);
+    if (fclose(gcov_var.file) != 0) {
+      gcov_var.error = 1;
+    }
     gcov_var.file = 0;
     gcov_var.byte_length = 0;
   }
-- 
2.43.0


From da9988070ee1b3e5ad3a5a775879589c3095c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 03/62] fix: add up call target counts when profiles are merged

Merging AutoFDO profiles kept only the last profile's count for a call
target instead of the sum.
---
 profile_creator.cc |  2 +-
 symbol_map.cc      | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 09d68b6..bdb1574 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -253,7 +253,7 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
     if (!symbol_map->AddIndirectCallTarget(
             *name, stack,
             "__prefetch_" + hint.type + "_" + std::to_string(prefetch_index),
-            static_cast<uint64_t>(delta))) {
+            static_cast<uint64_t>(delta), SymbolMap::INVALID)) {
       LOG(WARNING) << "Ignoring address " << std::hex << pc
                    << ". Could not add an indirect call target. Likely the "
                       "inline stack is empty for this address.";
diff --git a/symbol_map.cc b/symbol_map.cc
index 355df2f..67d026b 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -601,8 +601,15 @@ bool SymbolMap::AddIndirectCallTarget(absl::string_view symbol_name,
   if ((data_source == PERFDATA || data_source == AFDOPROTO) &&
       src[0].HasInvalidInfo())
     return false;
-  symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
-      .target_map[GetOriginalName(target)] = count;
+  uint64_t &target_count =
+      symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
+          .target_map[GetOriginalName(target)];
+  // As in AddSourceCount: counts read from several afdo profiles are merged.
+  if (data_source == AFDOPROFILE) {
+    target_count += count;
+  } else {
+    target_count = count;
+  }
   return true;
 }
 
-- 
2.43.0


From 4e86bc8ebdf3136230efaa4213eb76471c66cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 04/62] fix: report errors writing a text sample profile

A full disk or a failing close left a truncated file behind a success.
---
 sample_reader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index ac5d6ab..583c4c0 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -252,8 +252,12 @@ bool TextSampleReaderWriter::Write(const char *aux_info) {
   if (aux_info) {
     fprintf(fp, "%s", aux_info);
   }
-  fclose(fp);
-  return true;
+  bool ok = !ferror(fp);
+  if (fclose(fp) != 0) ok = false;
+  if (!ok) {
+    LOG(ERROR) << "Error writing to " << profile_file_;
+  }
+  return ok;
 }
 
 bool TextSampleReaderWriter::IsFileExist() const {
-- 
2.43.0


From 427690cd6070f6f227a53d9ac0c6f0be778323ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 05/62] fix: report read errors at the end of a text sample
 profile

---
 sample_reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index 583c4c0..6ac0afe 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -214,6 +214,12 @@ bool TextSampleReaderWriter::Append(const std::string &profile_file) {
     }
     branch_count_map_[Branch(from, to)] += count;
   }
+  // A read error in the digits of the last count looks like the end of it.
+  if (ferror(fp)) {
+    LOG(ERROR) << "Error reading from " << profile_file;
+    fclose(fp);
+    return false;
+  }
   fclose(fp);
   return true;
 }
-- 
2.43.0


From 2f34a0ae8b62d3a86b647bb21ada0d5cf526a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 06/62] fix: do not overwrite merged samples that cannot be
 opened

sample_merger took any failure to open its output file for its absence and
replaced the accumulated samples.
---
 sample_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index 6ac0afe..17adbb4 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -5,6 +5,7 @@
 
 #include "sample_reader.h"
 
+#include <errno.h>
 #include <inttypes.h>
 
 #include <cstdint>
@@ -269,7 +270,8 @@ bool TextSampleReaderWriter::Write(const char *aux_info) {
 bool TextSampleReaderWriter::IsFileExist() const {
   FILE *fp = fopen(profile_file_.c_str(), "r");
   if (fp == nullptr) {
-    return false;
+    // A file that cannot be opened for another reason must not be replaced.
+    return errno != ENOENT;
   } else {
     fclose(fp);
     return true;
-- 
2.43.0


From 45e1965ce46c7619ddf13c26d051b309983c4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 07/62] fix: forget matched DSOs between perf.data files

The cache is keyed by pointers into the parser, which dies with Append.
---
 sample_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index 17adbb4..ee419b8 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -284,6 +284,8 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
   if (!reader.ReadFile(profile_file) || !parser.ParseRawEvents()) {
     return false;
   }
+  // The cached DSOs belonged to the parser of an earlier file.
+  match_cache_.clear();
 
   // If we can find build_id from binary, and the exact build_id was found
   // in the profile, then we use focus_bins to match samples. Otherwise,
-- 
2.43.0


From 65556c12f669d7265d121cb4705a87a9b320ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 08/62] fix: fail when prefetch hints cannot be read

A missing or unreadable hints file gave an empty or partial profile and
success; a type longer than four characters overflowed its buffer.
---
 profile_creator.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index bdb1574..295a8c7 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -68,20 +68,24 @@ typedef std::vector<PrefetchHint> PrefetchHints;
 //   - the hint type (string) - e.g. NTA, T{0|1|2}.
 // The delta is to the next cache miss, calculated from the memory location
 // used in the memory operation at PC.
-PrefetchHints ReadPrefetchHints(const std::string &file_name) {
-  PrefetchHints hints;
+bool ReadPrefetchHints(const std::string &file_name, PrefetchHints *result) {
+  PrefetchHints &hints = *result;
   FILE *fp = fopen(file_name.c_str(), "r");
   if (fp == nullptr) {
     LOG(ERROR) << "Cannot open " << file_name << "to read";
+    return false;
   } else {
     uint64_t address = 0;
     int64_t delta = 0;
     char prefetch_type[5];
     while (!feof(fp)) {
-      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%s\n", &address, &delta,
-                      prefetch_type)) {
+      int fields = fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%4s\n", &address,
+                          &delta, prefetch_type);
+      if (fields == EOF && !ferror(fp)) break;
+      if (fields != 3 || ferror(fp)) {
         LOG(ERROR) << "Error reading from " << file_name;
-        break;
+        fclose(fp);
+        return false;
       }
       // We don't validate the type here. We'll just use it as a suffix to the
       // "__prefetch" indirect call, and let the compiler decide if it
@@ -91,7 +95,7 @@ PrefetchHints ReadPrefetchHints(const std::string &file_name) {
     }
     fclose(fp);
   }
-  return hints;
+  return true;
 }
 }  // namespace
 
@@ -229,7 +233,8 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
   // used.
   if (!CheckAndAssignAddr2Line(symbol_map, Addr2line::Create(binary_)))
     return false;
-  PrefetchHints hints = ReadPrefetchHints(profile_file);
+  PrefetchHints hints;
+  if (!ReadPrefetchHints(profile_file, &hints)) return false;
   absl::btree_map<uint64_t, uint8_t> repeated_prefetches_indices;
   for (auto &hint : hints) {
     uint64_t pc = hint.address;
-- 
2.43.0


From 4d61fd2e5c15a70784d84abe38f27cd9d5e5d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 09/62] fix: number DWARF 5 files and directories from 0

The line table reader numbered them from 1, so code inlined from another
file was attributed to the file before it in the table.
---
 util/symbolize/addr2line_inlinestack.cc |  4 ++--
 util/symbolize/dwarf2reader.cc          |  7 ++++---
 util/symbolize/functioninfo.cc          | 10 ++++++++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index f68f6e1..aea98c9 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -265,7 +265,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
   if (!subprogram_stack_.empty()) {
     switch (attr) {
       case DW_AT_call_file: {
-        if (data == 0 || data >= file_names_->size()) {
+        if ((data == 0 && dwarf_version_ < 5) || data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
@@ -468,7 +468,7 @@ void InlineStackHandler::ProcessAttributeSigned(
       case DW_AT_call_file: {
         CHECK(form == DW_FORM_implicit_const);
 
-        if (data == 0 || data >= file_names_->size()) {
+        if ((data == 0 && dwarf_version_ < 5) || data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 072665f..79d7ef7 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1612,7 +1612,8 @@ void LineInfo::ReadHeader() {
     header_.actuals_offset = 0;
   } 
   else if (header_.version == 5) {
-    // Read the DWARF-5 directory table.
+    // Read the DWARF-5 directory table. Its entries, like those of the
+    // filename table, are numbered from 0.
     {
       static const uint32 kMaxTypes = 4;
       uint32 content_types[kMaxTypes];
@@ -1629,7 +1630,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* dirname = NULL;
         for (uint32 col = 0; col < format_count; ++col) {
           if (content_types[col] == DW_LNCT_path) {
@@ -1667,7 +1668,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* filename = NULL;
         uint64 dirindex = 0;
         uint64 mod_time = 0;
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index ec0f904..65d34a7 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -51,7 +51,7 @@ CULineInfoHandler::CULineInfoHandler(
   Init();
 }
 void CULineInfoHandler::Init() {
-  // The dirs and files are 1 indexed, so just make sure we put
+  // The dirs and files are 1 indexed before DWARF 5, so just make sure we put
   // nothing in the 0 vector.
   CHECK_EQ(dirs_->size(), 0);
   CHECK_EQ(files_->size(), 0);
@@ -85,6 +85,10 @@ bool CULineInfoHandler::ShouldAddAddress(uint64 address) const {
 }
 
 void CULineInfoHandler::DefineDir(const char *name, uint32 dir_num) {
+  if (dir_num == 0) {
+    (*dirs_)[0] = name;
+    return;
+  }
   // These should never come out of order, actually
   CHECK_EQ(dir_num, dirs_->size());
   dirs_->push_back(name);
@@ -96,7 +100,9 @@ void CULineInfoHandler::DefineFile(const char *name,
   // These should never come out of order, actually.
   CHECK_GE(dir_num, 0);
   CHECK_LT(dir_num, dirs_->size());
-  if (file_num == files_->size() || file_num == -1) {
+  if (file_num == 0) {
+    (*files_)[0] = std::make_pair(dir_num, name);
+  } else if (file_num == files_->size() || file_num == -1) {
     files_->push_back(std::make_pair(dir_num, name));
   } else {
     LOG(INFO) << "error in DefineFile";
-- 
2.43.0


From 5e92fe2de5c10d7fac69b8e389092da7b8195763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 10/62] fix: pass the right string sections to the line table
 reader

.debug_str was taken from .debug_line_str, through end() when the binary
has no such section.
---
 util/symbolize/addr2line_inlinestack.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index aea98c9..1ce0c95 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -415,15 +415,15 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           const char* str_buffer = NULL;
           uint64 str_buffer_size = 0;
           if (str_section != sections_.end()) {
-            str_buffer = line_str->second.first;
-            str_buffer_size = line_str->second.second;
+            str_buffer = str_section->second.first;
+            str_buffer_size = str_section->second.second;
           }
           SectionMap::const_iterator str_offsets = sections_.find(".debug_str_offsets");
           const char* str_offsets_buffer = NULL;
           uint64 str_offsets_size = 0;
           if (str_offsets != sections_.end()) {
-            str_offsets_buffer = line_str->second.first;
-            str_offsets_size = line_str->second.second;
+            str_offsets_buffer = str_offsets->second.first;
+            str_offsets_size = str_offsets->second.second;
           }                    
           LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                             line_str_buffer, line_str_size,
-- 
2.43.0


From 59525851701e2e0309885d5c4e015b7f3b734755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 11/62] fix: range list entries with an absolute start ignore
 the base address

---
 util/symbolize/dwarf3ranges.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 13f5a9a..48c8b85 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -123,7 +123,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             CHECK(stop_ptr <= (addr_buffer_ + addr_buffer_length_));
             uint64 stop = reader_->ReadAddress(stop_ptr);
             if (start != stop)
-              ranges->push_back (make_pair (start + base, stop + base));
+              ranges->push_back (make_pair (start, stop));
             break;
           }
           case DW_RLE_startx_length: {
@@ -138,7 +138,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (start + base, start + base + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           case DW_RLE_offset_pair: {
@@ -173,7 +173,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (base + start, base + start + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           default: { 
-- 
2.43.0


From c5212c450936938046b3cce77dde0a70bcf72995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 12/62] fix: the end of a line sequence does not erase the
 start of another

---
 util/symbolize/functioninfo.cc | 8 +++++++-
 util/symbolize/functioninfo.h  | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index 65d34a7..f3b39a1 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -167,8 +167,14 @@ void CULineInfoHandler::AddLine(uint64 address, uint32 file_num,
     return;
   }
   if (end_sequence) {
-    linemap_->AddActual(address, 0);
+    // Another sequence, already read, may start where this one ends. Its first
+    // line must survive.
+    if (last_line_address_ == address || !linemap_->HasAddress(address)) {
+      linemap_->AddActual(address, 0);
+    }
+    last_line_address_ = kNoAddress;
   } else {
+    last_line_address_ = address;
     if (GetLogicals() == NULL) {
       if (file_num < files_->size()) {
         const std::pair<int, const char *>& file = (*files_)[file_num];
diff --git a/util/symbolize/functioninfo.h b/util/symbolize/functioninfo.h
index dba3248..2ab6494 100644
--- a/util/symbolize/functioninfo.h
+++ b/util/symbolize/functioninfo.h
@@ -147,6 +147,11 @@ class AddressToLineMap {
     line_map_[addr] = logical_num;
   }
 
+  // Returns true if a line, or the end of a sequence, was added for "addr".
+  bool HasAddress(uint64 addr) const {
+    return line_map_.find(addr) != line_map_.end();
+  }
+
   const_iterator begin() const {
     return line_map_.begin();
   }
@@ -292,6 +297,9 @@ class CULineInfoHandler: public LineInfoHandler {
   FileVector* files_;
   DirectoryVector* dirs_;
   const map<uint64_t, uint64_t> *sampled_functions_;
+  // The address of the last line added in the current sequence.
+  static constexpr uint64 kNoAddress = ~0ULL;
+  uint64 last_line_address_ = kNoAddress;
   DISALLOW_EVIL_CONSTRUCTORS(CULineInfoHandler);
 };
 
-- 
2.43.0


From ad8cb4451765b1f1aa65909d686e58c9edb99402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 13/62] fix: do not dereference a missing call site file

---
 legacy_addr2line.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 96d7e0c..c6fe029 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -244,8 +244,11 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     if (start_line == 0)
       start_line = subprog->callsite_line();
 
-    dir_name = subprog->callsite_directory();
-    if (!dir_name.is_absolute()) {
+    // The call site may not have a (valid) file.
+    const char *callsite_directory = subprog->callsite_directory();
+    const char *callsite_filename = subprog->callsite_filename();
+    dir_name = callsite_directory ? callsite_directory : "";
+    if (callsite_directory && !dir_name.is_absolute()) {
       if (subprog->comp_directory()) {
         dir_name = subprog->comp_directory() / dir_name;
       } else if (const char *abstract_comp = inline_stack_handler_->GetAbstractOrigin(subprog)->comp_directory()) {
@@ -256,7 +259,7 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     stack->push_back(SourceInfo(
         canonical_parent->name().c_str(),
         dir_name,
-        subprog->callsite_filename(),
+        callsite_filename ? callsite_filename : "",
         start_line,
         subprog->callsite_line(),
         subprog->callsite_discr()));
-- 
2.43.0


From 295abb55b7dd01b17e1fba05e757e7bf76cf440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 14/62] fix: do not take unreadable ELF headers for missing
 ones

---
 util/symbolize/elf_reader.cc | 45 ++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index 9787c11..72f787f 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -46,6 +46,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <elf.h>
+#include <errno.h>
 #include <string.h>
 
 #include <algorithm>
@@ -66,6 +67,23 @@ template <typename T>
 T AdjustARMThumbSymbolValue(const T& symbol_table_value) {
   return symbol_table_value & ~(1 << kARMThumbBitOffset);
 }
+
+// Reads "size" bytes at "offset" of a file and returns how many there were
+// before the end of the file. Dies if the file cannot be read: callers take a
+// file without (all) its headers for one that is not an ELF file.
+ssize_t ReadFully(int fd, void *buffer, size_t size, off_t offset) {
+  size_t done = 0;
+  while (done < size) {
+    const ssize_t n =
+        pread(fd, static_cast<char *>(buffer) + done, size - done,
+              offset + done);
+    if (n == -1 && errno == EINTR) continue;
+    if (n == -1 && errno != EISDIR) PLOG(FATAL) << "Could not read ELF headers";
+    if (n <= 0) break;
+    done += n;
+  }
+  return done;
+}
 }  // namespace
 
 namespace devtools_crosstool_autofdo {
@@ -286,7 +304,7 @@ class ElfReaderImpl {
   // in case of failure.
   static bool IsArchElfFile(int fd, string *error) {
     unsigned char header[EI_NIDENT];
-    if (pread(fd, header, sizeof(header), 0) != sizeof(header)) {
+    if (ReadFully(fd, header, sizeof(header), 0) != sizeof(header)) {
       if (error != NULL) *error = "Could not read header";
       return false;
     }
@@ -574,9 +592,8 @@ class ElfReaderImpl {
   // number and target architecture.
   bool ParseHeaders(int fd, const string &path) {
     // Read in the global ELF header.
-    if (pread(fd, &header_, sizeof(header_), 0) != sizeof(header_)) {
-      LOG(ERROR) << "Could not read ELF header: " << path;
-      return false;
+    if (ReadFully(fd, &header_, sizeof(header_), 0) != sizeof(header_)) {
+      LOG(FATAL) << "Could not read ELF header: " << path;
     }
 
     // Must be an executable, dynamic shared object or relocatable object
@@ -599,10 +616,9 @@ class ElfReaderImpl {
       // will read SHN_UNDEF and the true number of section header table entries
       // is found in the sh_size field of the first section header.
       // See: http://www.sco.com/developers/gabi/2003-12-17/ch4.sheader.html
-      if (pread(fd, &first_section_header_, sizeof(first_section_header_),
-                header_.e_shoff) != sizeof(first_section_header_)) {
-        LOG(ERROR) << "Failed to read first section header: " << path;
-        return false;
+      if (ReadFully(fd, &first_section_header_, sizeof(first_section_header_),
+                    header_.e_shoff) != sizeof(first_section_header_)) {
+        LOG(FATAL) << "Failed to read first section header: " << path;
       }
     }
 
@@ -611,19 +627,18 @@ class ElfReaderImpl {
     const int section_headers_size =
         GetNumSections() * sizeof(*section_headers_);
     section_headers_ = new typename ElfArch::Shdr[section_headers_size];
-    if (pread(fd, section_headers_, section_headers_size, header_.e_shoff) !=
-        section_headers_size) {
-      LOG(ERROR) << "Could not read section headers: " << path;
-      return false;
+    if (ReadFully(fd, section_headers_, section_headers_size,
+                  header_.e_shoff) != section_headers_size) {
+      LOG(FATAL) << "Could not read section headers: " << path;
     }
 
     // Dynamically allocate enough space to store the program headers
     // and read them out of the file.
     const int program_headers_size =
         GetNumProgramHeaders() * sizeof(*program_headers_);
-    program_headers_ = new typename ElfArch::Phdr[GetNumProgramHeaders()];
-    if (pread(fd, program_headers_, program_headers_size, header_.e_phoff) !=
-        program_headers_size) {
+    program_headers_ = new typename ElfArch::Phdr[GetNumProgramHeaders()]();
+    if (ReadFully(fd, program_headers_, program_headers_size,
+                  header_.e_phoff) != program_headers_size) {
       LOG(ERROR) << "Could not read program headers: " << path
                  << " Continue anyway";
     }
-- 
2.43.0


From 0050e4bd038af1f67dd18ffca01298b6f79789c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 15/62] fix: refuse to create a profile when the binary cannot
 be read

If the binary could not be opened again while symbols, segments or the build
id are read, create_gcov silently produced an empty or misattributed profile
and reported success.
---
 profile_creator.cc | 11 +++++++++++
 profile_creator.h  |  3 +++
 symbol_map.cc      |  6 ++++++
 symbol_map.h       |  5 +++++
 4 files changed, 25 insertions(+)

diff --git a/profile_creator.cc b/profile_creator.cc
index 295a8c7..3fc293b 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -127,6 +127,8 @@ bool ProfileCreator::CreateProfile(const std::string &input_profile_name,
                                    bool check_lbr_entry) {
   SymbolMap symbol_map(binary_);
 
+  // A profile cannot be attributed to a binary that cannot be read.
+  binary_is_required_ = true;
   writer->setSymbolMap(&symbol_map);
   if (profiler == "prefetch") {
     symbol_map.set_ignore_thresholds(true);
@@ -136,6 +138,10 @@ bool ProfileCreator::CreateProfile(const std::string &input_profile_name,
     symbol_map.ReadLoadableExecSegmentInfo(IsKernelSample());
     if (!ComputeProfile(&symbol_map, check_lbr_entry)) return false;
   }
+  if (!symbol_map.binary_is_readable()) {
+    LOG(ERROR) << "Error reading symbols from binary " << binary_;
+    return false;
+  }
 
 #if defined(HAVE_LLVM)
   // Create prof_sym_list after symbol_map is populated because prof_sym_list
@@ -180,6 +186,11 @@ bool ProfileCreator::ReadSample(absl::string_view input_profile_name,
       free(dup_name);
 
       ElfReader reader(binary_);
+      if (binary_is_required_ && !reader.IsElf32File() &&
+          !reader.IsElf64File()) {
+        LOG(ERROR) << "Error reading build id from binary " << binary_;
+        return false;
+      }
       // Quipper (and other parts of google3's perf infrastructure) pads build
       // ids--if present--to 40 characters hex. Match that behavior here. See
       // quipper/perf_data_utils.h and b/21597512 for more info.
diff --git a/profile_creator.h b/profile_creator.h
index 9ef1803..e71169a 100644
--- a/profile_creator.h
+++ b/profile_creator.h
@@ -70,6 +70,9 @@ class ProfileCreator {
 
   SampleReader *sample_reader_;
   std::string binary_;
+  // Whether reading samples fails if the binary cannot be read. Merely merging
+  // samples does not need the binary.
+  bool binary_is_required_ = false;
 };
 
 // Merges all input_files into output_file. Returns `true` when all merges have
diff --git a/symbol_map.cc b/symbol_map.cc
index 67d026b..27f7a51 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -455,6 +455,9 @@ class SymbolReader : public ElfReader::SymbolSink {
 
 void SymbolMap::ReadLoadableExecSegmentInfo(bool is_kernel) {
   ElfReader elf_reader(binary_);
+  if (!elf_reader.IsElf32File() && !elf_reader.IsElf64File()) {
+    binary_is_readable_ = false;
+  }
   if (is_kernel) {
     LOG(INFO) << "Binary=" << binary_ << " is considered as a kernel image";
   }
@@ -494,6 +497,9 @@ void SymbolMap::ReadLoadableExecSegmentInfo(bool is_kernel) {
 
 void SymbolMap::BuildSymbolMap() {
   ElfReader elf_reader(binary_);
+  if (!elf_reader.IsElf32File() && !elf_reader.IsElf64File()) {
+    binary_is_readable_ = false;
+  }
 #if defined(HAVE_LLVM)
   SourceInfo::use_fs_discriminator = false;
   SourceInfo::use_base_only_in_fs_discriminator = false;
diff --git a/symbol_map.h b/symbol_map.h
index 6613f9e..b2f6d12 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -295,6 +295,10 @@ class SymbolMap {
 
   uint64_t size() const { return map_.size(); }
 
+  // False if the binary could not be read, so that its symbols or segments are
+  // missing here.
+  bool binary_is_readable() const { return binary_is_readable_; }
+
   void set_count_threshold(int64_t n) { count_threshold_ = n; }
   int64_t count_threshold() const { return count_threshold_; }
 
@@ -618,6 +622,7 @@ class SymbolMap {
   NameAddressMap name_addr_map_;
   AddressSymbolMap address_symbol_map_;
   const std::string binary_;
+  bool binary_is_readable_ = true;
   // segments needs to sort by offset in ascending order.
   std::vector<segmentinfo> loadable_exec_segments_;
   int64_t count_threshold_;
-- 
2.43.0


From d2b15e6eff5d068d78f630d844d4a2495de77f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 16/62] fix: keep header-only function totals when merging LLVM
 profiles

---
 llvm_profile_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm_profile_reader.cc b/llvm_profile_reader.cc
index e466368..21012e2 100644
--- a/llvm_profile_reader.cc
+++ b/llvm_profile_reader.cc
@@ -80,9 +80,11 @@ void LLVMProfileReader::ReadFromFunctionSamples(
   if (stack.empty() && !shouldMergeProfileForSym(func_name)) return;
 
   const char *top_func_name = nullptr;
+  int64_t total_count_before = 0;
   if (stack.empty()) {
     top_func_name = func_name;
     symbol_map_->AddSymbol(func_name);
+    total_count_before = symbol_map_->map().at(func_name)->total_count;
     symbol_map_->AddSymbolEntryCount(func_name, fs.getHeadSamples());
   } else {
     top_func_name = stack.back().func_name;
@@ -118,8 +120,10 @@ void LLVMProfileReader::ReadFromFunctionSamples(
   // NB: For inline instances, this can theoritically happen if lines without
   // debug information receive samples and lines with debug information don't.
   // It's not something we have seen in practice so it's not being implemented.
+  // Compare with the count before this profile was read, because the function
+  // may already have counts from other profiles.
   if (stack.empty() &&
-      symbol_map_->map().at(func_name)->total_count == 0) {
+      symbol_map_->map().at(func_name)->total_count == total_count_before) {
     symbol_map_->AddSymbolEntryCount(func_name, 0, fs.getTotalSamples());
   }
 }
-- 
2.43.0


From 53f14f6b2c3d45734a62571976b197ad8247fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 17/62] fix: flatten inline call sites in a fixed order, not in
 hash order

---
 symbol_map.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbol_map.cc b/symbol_map.cc
index 27f7a51..52304a7 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1382,6 +1382,12 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
   for (auto &callsite : func->callsites) {
     callsites.push_back(&callsite);
   }
+  // The result depends on the order, so do not leave it to hashing.
+  std::sort(callsites.begin(), callsites.end(),
+            [](const CallsiteMap::value_type *a,
+               const CallsiteMap::value_type *b) {
+              return CallsiteLessThan()(a->first, b->first);
+            });
   if (depth == max_inline_callsite_nesting_level) {
     // If nesting level is at max, all inline callsites are flattened.
     for (const auto *pos_and_callsite : callsites) {
-- 
2.43.0


From 85cdcf8e59dc0122c726425d36a757eb93f8f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 18/62] fix: break ties between throttled inline instances by
 name, not by hash order

---
 symbol_map.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 52304a7..0dbd110 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1587,7 +1587,11 @@ int64_t Symbol::throttleInlineInstancesAtSameLocation(
                          return a.first.location < b.first.location;
                        // If the locations are the same, compare the hotness of
                        // the callsites.
-                       return a.second->total_count > b.second->total_count;
+                       if (a.second->total_count != b.second->total_count)
+                         return a.second->total_count > b.second->total_count;
+                       // Use name as tie-breaker because callsites are not
+                       // ordered.
+                       return CallsiteLessThan()(a.first, b.first);
                      });
 
     uint64_t num_inline_instances_at_same_loc = 0;
-- 
2.43.0


From e6a2b07ab2f88106cfce57760503e1e60a096707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 19/62] fix: do not list a function as unsampled because of its
 cold part

---
 symbol_map.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbol_map.cc b/symbol_map.cc
index 0dbd110..354ce14 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1522,6 +1522,8 @@ NameSizeList SymbolMap::collectNamesForProfSymList() {
   for (const auto &addr_symbol : address_symbol_map_) {
     llvm::StringRef str = addr_symbol.second.first;
     if (names_in_profile.count(str)) continue;
+    // A part of a function is in the profile under the function's name.
+    if (names_in_profile.count(GetOriginalName(str.str()))) continue;
     name_size_list.emplace_back(str, addr_symbol.second.second);
   }
   return name_size_list;
-- 
2.43.0


From 7560ce61f5ab25fa1f01d1c97e48f02bd2054ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 20/62] fix: let --ignore_build_id match mmaps by binary name

---
 create_llvm_prof.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 3992c27..0637a86 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -161,12 +161,16 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     option_builder.SetCfgDumpDirName(
         absl::GetFlag(FLAGS_propeller_cfg_dump_dir));
   }
+  // An empty name is not a name: it would hide --ignore_build_id.
+  if (!absl::GetFlag(FLAGS_profiled_binary_name).empty()) {
+    option_builder.SetProfiledBinaryName(
+        absl::GetFlag(FLAGS_profiled_binary_name));
+  }
 
   return devtools_crosstool_autofdo::PropellerOptions(
       option_builder.SetBinaryName(absl::GetFlag(FLAGS_binary))
           .SetClusterOutName(absl::GetFlag(FLAGS_out))
           .SetSymbolOrderOutName(absl::GetFlag(FLAGS_propeller_symorder))
-          .SetProfiledBinaryName(absl::GetFlag(FLAGS_profiled_binary_name))
           .SetIgnoreBuildId(absl::GetFlag(FLAGS_ignore_build_id))
           .SetCodeLayoutParamsChainSplit(
               absl::GetFlag(FLAGS_propeller_chain_split))
-- 
2.43.0


From 2d76a4111a10b916fecd1b1fe287a23e7f3dfdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 21/62] fix: use --profiler for propeller profiles that are not
 in a list file

---
 create_llvm_prof.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 0637a86..da1e15a 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -155,7 +155,9 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     for (const std::string &pf : perf_files)
       if (!pf.empty())
         option_builder.AddInputProfiles(
-            devtools_crosstool_autofdo::InputProfileBuilder().SetName(pf));
+            devtools_crosstool_autofdo::InputProfileBuilder()
+                .SetName(pf)
+                .SetType(GetProfileTypeFromFlag()));
   }
   if (!absl::GetFlag(FLAGS_propeller_cfg_dump_dir).empty()) {
     option_builder.SetCfgDumpDirName(
-- 
2.43.0


From dd54133cdee51ace51c2d8bd6312476853d8a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 22/62] fix: keep 64-bit block addresses in control flow graphs

---
 llvm_propeller_cfg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_cfg.h b/llvm_propeller_cfg.h
index c3408b8..aa49fc1 100644
--- a/llvm_propeller_cfg.h
+++ b/llvm_propeller_cfg.h
@@ -264,7 +264,7 @@ class CFGNode final {
   const int bb_id_;
   // Index of the node in its CFG's `nodes()`.
   const int node_index_;
-  const int addr_;
+  const uint64_t addr_;
   int size_ = 0;
   const llvm::object::BBAddrMap::BBEntry::Metadata metadata_;
   int freq_ = 0;
-- 
2.43.0


From 3a87acb74b9f672452bf75fcdd2faffcbf3f0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 23/62] fix: keep hot landing pads in one section when
 functions are interleaved

---
 llvm_propeller_node_chain_builder.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_node_chain_builder.cc b/llvm_propeller_node_chain_builder.cc
index 14a96ab..cb1d5fc 100644
--- a/llvm_propeller_node_chain_builder.cc
+++ b/llvm_propeller_node_chain_builder.cc
@@ -49,6 +49,23 @@ GetInitialChainsForCfgs(
   }
   return result;
 }
+
+// Returns the scorer for ordering `cfgs`. The entry block of a function starts
+// a section, so that landing pads on both sides of it would be in different
+// sections. If several landing pads of the only function must stay together,
+// this falls back to intra-function ordering, which keeps the entry first.
+PropellerCodeLayoutScorer GetScorerForCfgs(
+    const PropellerCodeLayoutScorer &scorer,
+    const std::vector<const ControlFlowGraph *> &cfgs) {
+  if (!scorer.code_layout_params().inter_function_reordering() ||
+      cfgs.size() != 1 || cfgs.front()->n_landing_pads() <= 1 ||
+      !cfgs.front()->has_hot_landing_pads()) {
+    return scorer;
+  }
+  PropellerCodeLayoutParameters params = scorer.code_layout_params();
+  params.set_inter_function_reordering(false);
+  return PropellerCodeLayoutScorer(params);
+}
 }  // namespace
 
 template <class AssemblyQueueImpl>
@@ -58,7 +75,7 @@ NodeChainBuilder NodeChainBuilder::CreateNodeChainBuilder(
     const absl::flat_hash_map<
         int, std::vector<std::vector<CFGNode::IntraCfgId>>> &initial_chains,
     PropellerStats::CodeLayoutStats &stats) {
-  return NodeChainBuilder(scorer, cfgs,
+  return NodeChainBuilder(GetScorerForCfgs(scorer, cfgs), cfgs,
                           GetInitialChainsForCfgs(cfgs, initial_chains), stats,
                           std::make_unique<AssemblyQueueImpl>());
 }
-- 
2.43.0


From dfd4d075294783347ac1e48fb5c4243126cbb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 24/62] fix: build control flow graphs in address order, not in
 hash order

The order of the edges and the kind of an edge recorded with several kinds
followed the iteration order of the branch counters, so the layout and the
dumped graphs differed from run to run.
---
 llvm_propeller_program_cfg.cc         |  5 +++--
 llvm_propeller_program_cfg_builder.cc | 16 +++++++++++++---
 llvm_propeller_program_cfg_builder.h  |  3 ++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/llvm_propeller_program_cfg.cc b/llvm_propeller_program_cfg.cc
index 6be673d..17d0905 100644
--- a/llvm_propeller_program_cfg.cc
+++ b/llvm_propeller_program_cfg.cc
@@ -26,8 +26,9 @@ absl::flat_hash_map<llvm::StringRef, std::vector<const ControlFlowGraph *>>
 ProgramCfg::GetCfgsBySectionName() const {
   absl::flat_hash_map<llvm::StringRef, std::vector<const ControlFlowGraph *>>
       result;
-  for (const auto &[function_index, cfg] : cfgs_) {
-    result[cfg->section_name()].push_back(cfg.get());
+  // Visit the CFGs in a fixed order, as the layout depends on it.
+  for (const ControlFlowGraph *cfg : GetCfgs()) {
+    result[cfg->section_name()].push_back(cfg);
   }
   return result;
 }
diff --git a/llvm_propeller_program_cfg_builder.cc b/llvm_propeller_program_cfg_builder.cc
index 44fd0d5..5099248 100644
--- a/llvm_propeller_program_cfg_builder.cc
+++ b/llvm_propeller_program_cfg_builder.cc
@@ -14,6 +14,8 @@
 #include "llvm_propeller_formatting.h"
 #include "llvm_propeller_program_cfg.h"
 #include "base/logging.h"
+#include "third_party/abseil/absl/algorithm/container.h"
+#include "third_party/abseil/absl/container/btree_map.h"
 #include "third_party/abseil/absl/container/flat_hash_map.h"
 #include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/status/statusor.h"
@@ -114,7 +116,7 @@ absl::StatusOr<std::unique_ptr<ProgramCfg>> ProgramCfgBuilder::Build(
 void ProgramCfgBuilder::CreateFallthroughs(
     const BranchAggregation &branch_aggregation,
     const absl::flat_hash_map<CFGNode::InterCfgId, CFGNode *> &tmp_node_map,
-    absl::flat_hash_map<std::pair<int, int>, int> *tmp_bb_fallthrough_counters,
+    absl::btree_map<std::pair<int, int>, int> *tmp_bb_fallthrough_counters,
     absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                         CFGEdge *> *tmp_edge_map) {
   for (auto [fallthrough, cnt] : branch_aggregation.fallthrough_counters) {
@@ -208,11 +210,19 @@ absl::Status ProgramCfgBuilder::CreateEdges(
                       CFGEdge *>
       tmp_edge_map;
 
-  absl::flat_hash_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
+  absl::btree_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
+
+  // Create the edges in the order of their addresses. The order of the edges,
+  // and the kind of those which are recorded with several kinds, must not
+  // depend on the iteration order of the hash map.
+  std::vector<std::pair<BinaryAddressBranch, int64_t>> branch_counters(
+      branch_aggregation.branch_counters.begin(),
+      branch_aggregation.branch_counters.end());
+  absl::c_sort(branch_counters);
 
   int weight_on_dubious_edges = 0;
   int edges_recorded = 0;
-  for (auto [branch, weight] : branch_aggregation.branch_counters) {
+  for (const auto &[branch, weight] : branch_counters) {
     ++edges_recorded;
     std::optional<int> from_bb_index =
         binary_address_mapper_->FindBbHandleIndexUsingBinaryAddress(
diff --git a/llvm_propeller_program_cfg_builder.h b/llvm_propeller_program_cfg_builder.h
index 9c745d3..7da2670 100644
--- a/llvm_propeller_program_cfg_builder.h
+++ b/llvm_propeller_program_cfg_builder.h
@@ -10,6 +10,7 @@
 #include "llvm_propeller_cfg.h"
 #include "llvm_propeller_program_cfg.h"
 #include "llvm_propeller_statistics.h"
+#include "third_party/abseil/absl/container/btree_map.h"
 #include "third_party/abseil/absl/container/flat_hash_map.h"
 #include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/status/statusor.h"
@@ -63,7 +64,7 @@ class ProgramCfgBuilder {
   void CreateFallthroughs(
       const BranchAggregation &branch_aggregation,
       const absl::flat_hash_map<CFGNode::InterCfgId, CFGNode *> &tmp_node_map,
-      absl::flat_hash_map<std::pair<int, int>, int>
+      absl::btree_map<std::pair<int, int>, int>
           *tmp_bb_fallthrough_counters,
       absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                           CFGEdge *> *tmp_edge_map);
-- 
2.43.0


From d6de0d506f3960d3996ba255ec852c8a80edad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 25/62] fix: report propeller outputs that could not be written

Errors on the profile, symbol order and control flow graph streams were never
looked at, so that a truncated profile came with a success status.
---
 llvm_propeller_profile_generator.cc |  3 ++-
 llvm_propeller_profile_writer.cc    | 31 +++++++++++++++++++++++++----
 llvm_propeller_profile_writer.h     |  5 +++--
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/llvm_propeller_profile_generator.cc b/llvm_propeller_profile_generator.cc
index 3385254..0fb9877 100644
--- a/llvm_propeller_profile_generator.cc
+++ b/llvm_propeller_profile_generator.cc
@@ -30,6 +30,7 @@
 #include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/strings/str_cat.h"
 #include "base/logging.h"
+#include "base/status_macros.h"
 
 namespace devtools_crosstool_autofdo
 {
@@ -176,7 +177,7 @@ namespace devtools_crosstool_autofdo
                        profile_computer->ComputeProfile(statuses.profile_mapping,
                                                         statuses.code_layout));
 
-      PropellerProfileWriter(opts).Write(profile);
+      RETURN_IF_ERROR(PropellerProfileWriter(opts).Write(profile));
       statuses.file_writing->SetDone();
       LOG(INFO) << profile_computer->stats().DebugString();
       InvokePropellerTelemetryReporters(profile_computer->binary_content(),
diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index 9a6512b..94196cc 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -5,6 +5,8 @@
 #include "llvm_propeller_profile.h"
 #include "third_party/abseil/absl/algorithm/container.h"
 #include "third_party/abseil/absl/container/flat_hash_map.h"
+#include "third_party/abseil/absl/status/status.h"
+#include "base/status_macros.h"
 
 
 #if defined(HAVE_LLVM)
@@ -32,8 +34,17 @@
 namespace devtools_crosstool_autofdo {
 
 namespace {
-void DumpCfgs(const PropellerProfile &profile,
-              absl::string_view cfg_dump_dir_name) {
+// Closes `os`, and returns an error if anything written to it did not reach the
+// file `file_name`.
+absl::Status CloseOutput(std::ofstream &os, absl::string_view file_name) {
+  os.close();
+  if (os.fail())
+    return absl::InternalError(absl::StrCat("Failed to write ", file_name));
+  return absl::OkStatus();
+}
+
+absl::Status DumpCfgs(const PropellerProfile &profile,
+                      absl::string_view cfg_dump_dir_name) {
   // Create the cfg dump directory and the cfg index file.
   llvm::sys::fs::create_directory(cfg_dump_dir_name);
   llvm::SmallString<100> cfg_index_file_vec(cfg_dump_dir_name.begin(),
@@ -82,8 +93,10 @@ void DumpCfgs(const PropellerProfile &profile,
                                    cluster.layout_index + bbi});
 
       cfg->WriteDotFormat(cfg_dump_os, layout_index_map);
+      RETURN_IF_ERROR(CloseOutput(cfg_dump_os, cfg_dump_file));
     }
   }
+  return CloseOutput(cfg_index_os, cfg_index_file);
 }
 
 // Dumps the intra-function edge profile of `cfg` into `out`.
@@ -105,7 +118,8 @@ void DumpCfgProfile(const ControlFlowGraph &cfg, std::ofstream &out) {
 }
 }  // namespace
 
-void PropellerProfileWriter::Write(const PropellerProfile &profile) const {
+absl::Status PropellerProfileWriter::Write(
+    const PropellerProfile &profile) const {
   std::ofstream cc_profile_os(options_.cluster_out_name());
   std::ofstream ld_profile_os(options_.symbol_order_out_name());
   if (profile_encoding_.version != ClusterEncodingVersion::VERSION_0) {
@@ -255,8 +269,17 @@ void PropellerProfileWriter::Write(const PropellerProfile &profile) const {
       }
     }
   }
+  // An output without a name is not wanted.
+  if (!options_.cluster_out_name().empty()) {
+    RETURN_IF_ERROR(CloseOutput(cc_profile_os, options_.cluster_out_name()));
+  }
+  if (!options_.symbol_order_out_name().empty()) {
+    RETURN_IF_ERROR(
+        CloseOutput(ld_profile_os, options_.symbol_order_out_name()));
+  }
   if (options_.has_cfg_dump_dir_name())
-    DumpCfgs(profile, options_.cfg_dump_dir_name());
+    return DumpCfgs(profile, options_.cfg_dump_dir_name());
+  return absl::OkStatus();
 }
 }  // namespace devtools_crosstool_autofdo
 #endif
diff --git a/llvm_propeller_profile_writer.h b/llvm_propeller_profile_writer.h
index 7f862b0..49c7629 100644
--- a/llvm_propeller_profile_writer.h
+++ b/llvm_propeller_profile_writer.h
@@ -6,6 +6,7 @@
 #include "llvm_propeller_options.pb.h"
 #include "llvm_propeller_profile.h"
 #include "base/logging.h"
+#include "third_party/abseil/absl/status/status.h"
 
 namespace devtools_crosstool_autofdo {
 // Writes the propeller profiles to output files.
@@ -16,8 +17,8 @@ class PropellerProfileWriter {
         profile_encoding_(GetProfileEncoding(options.cluster_out_version())) {}
 
   // Writes code layout result in `all_functions_cluster_info` into the output
-  // file.
-  void Write(const PropellerProfile& profile) const;
+  // file. Returns an error if an output could not be written completely.
+  absl::Status Write(const PropellerProfile& profile) const;
 
  private:
   struct ProfileEncoding {
-- 
2.43.0


From 332944506ec0eda1bdd7a09b05d33b8636303b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 26/62] fix: do not use a part of the profile list after a read
 error

---
 create_llvm_prof.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index da1e15a..9646808 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -150,6 +150,7 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
                 .SetType(GetProfileTypeFromFlag()));
       }
     }
+    if (fin.bad()) LOG(FATAL) << "Error reading profile list: " << pstr;
   } else {
     std::vector<std::string> perf_files = absl::StrSplit(pstr, ';');
     for (const std::string &pf : perf_files)
-- 
2.43.0


From 330579a4ad620e1598ff02cb8f9721f9c63ee57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 27/62] fix: register all status providers before starting the
 status consumers

Until the first provider is added the overall status is 100% and done.
---
 llvm_propeller_profile_generator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llvm_propeller_profile_generator.cc b/llvm_propeller_profile_generator.cc
index 0fb9877..c75083f 100644
--- a/llvm_propeller_profile_generator.cc
+++ b/llvm_propeller_profile_generator.cc
@@ -149,6 +149,9 @@ namespace devtools_crosstool_autofdo
             create_aggregator)
     {
       MultiStatusProvider main_status("generate propeller profiles");
+      // A status without providers is reported as done, so they must all be there
+      // before the consumers are started.
+      StatusProviders statuses = AddStatusProviders(main_status);
 
       // Because the stopper "stops" consumers that have a reference to
       // main_status, we must declared "stopper" after "main_status" so "stopper" is
@@ -161,8 +164,6 @@ namespace devtools_crosstool_autofdo
                         /*status_provider=*/&main_status);
       }
 
-      StatusProviders statuses = AddStatusProviders(main_status);
-
       ASSIGN_OR_RETURN(std::unique_ptr<BinaryContent> binary_content,
                        GetBinaryContent(opts.binary_name()));
       statuses.binary_reading->SetDone();
-- 
2.43.0


From 6819c1f4a143a664f9c03f3cc1acc2abdb4e37d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 28/62] fix: show all events to SPE's thread to process lookup

ReadWithSpeRecordCallBack excluded sample, mmap, fork and comm events from
the events that SpeTidPidProvider learns from, so records of threads other
than the main one were taken for those of an unknown process and dropped.
---
 perfdata_reader.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index acdac31..f609006 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -362,11 +362,8 @@ absl::Status PerfDataReader::ReadWithSpeRecordCallBack(
     absl::FunctionRef<void(const quipper::ArmSpeDecoder::Record &, int)>
         callback) const {
   quipper::PerfReader perf_reader;
-  // We don't need to serialise anything here, so let's exclude all major event
-  // types.
-  perf_reader.SetEventTypesToSkipWhenSerializing(
-      {quipper::PERF_RECORD_SAMPLE, quipper::PERF_RECORD_MMAP,
-       quipper::PERF_RECORD_FORK, quipper::PERF_RECORD_COMM});
+  // No event types are excluded: `SpeTidPidProvider` learns which process a
+  // thread belongs to from sample, mmap, fork and comm events.
   if (!perf_reader.ReadFromPointer(perf_data_.buffer->getBufferStart(),
                                    perf_data_.buffer->getBufferSize())) {
     LOG(FATAL) << "Failed to read perf data file: " << perf_data_.description;
-- 
2.43.0


From bfb80c9e41edd5ac0ca4fdfe5510becd5c366b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 29/62] fix: keep thread to process entries that arrive out of
 time order

perf.data is not in time order. An entry was dropped if the latest one known
had the same process, even if it was earlier than that one, so records between
the two were attributed to another or an unknown process.
---
 spe_tid_pid_provider.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spe_tid_pid_provider.cc b/spe_tid_pid_provider.cc
index cfc8220..af50e27 100644
--- a/spe_tid_pid_provider.cc
+++ b/spe_tid_pid_provider.cc
@@ -28,8 +28,6 @@ SpeTidPidProvider::SpeTidPidProvider(
     auto record = [&](int pid, int tid, uint64_t timestamp) {
       if (pid <= 0 || tid <= 0) return;
       absl::btree_map<uint64_t, pid_t>& pids = tids_to_pids_[tid];
-      // If the most recent entry is from this PID, don't bother adding it.
-      if (!pids.empty() && pids.rbegin()->second == pid) return;
       VLOG(7) << absl::StrCat("tid = ", tid, ", timestamp = ", timestamp,
                               ", pid = ", pid, "\n");
       pids.insert(std::make_pair(timestamp, pid));
-- 
2.43.0


From fc56589d2a50d9c70c6d3790bd0694e8cc661a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 30/62] fix: do not read before the start of short symbol names

The test for "@plt" read four characters before the end of every symbol name,
which is before its start if the name is shorter than that. A short name at
the start of the mapped string table made BuildSymbolMap crash.
---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 354ce14..a9e1867 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -512,7 +512,7 @@ void SymbolMap::BuildSymbolMap() {
     static const std::regex kSuffixRe(R"(\.__part\.\d+$)");
     return (size != 0 &&
             (type == STT_FUNC || absl::EndsWith(name, ".cold") || std::regex_search(name, kSuffixRe)) &&
-            strcmp(name + strlen(name) - 4, "@plt") != 0);
+            !absl::EndsWith(name, "@plt"));
   };
   elf_reader.VisitSymbols(&symbol_reader);
 #if defined(HAVE_LLVM)
-- 
2.43.0


From 5bc77e360eec2a6429482389498e8d8b4357ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 31/62] fix: accept flags in profile_diff

The number of arguments was checked, and the files were taken, before
flags are removed, so --compare_function could not be given.
---
 profile_diff.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profile_diff.cc b/profile_diff.cc
index fc11f27..64234f2 100644
--- a/profile_diff.cc
+++ b/profile_diff.cc
@@ -24,10 +24,10 @@ int main(int argc, char **argv) {
       "of [0,1]). If overlap is > 0.9, the two profiles are "
       "considered similar and should provide comparable speedup.";
   absl::SetProgramUsageMessage(use);
-  absl::ParseCommandLine(argc, argv);
+  std::vector<char *> args = absl::ParseCommandLine(argc, argv);
   devtools_crosstool_autofdo::SymbolMap symbol_map_1, symbol_map_2;
 
-  if (argc != 3) {
+  if (args.size() != 3) {
     LOG(FATAL) << "Please specify two files to compare";
   }
 
-- 
2.43.0


From 65db9735f5a3fbec71274d75a5b9fac56a52472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 32/62] fix: profile_diff fails on profiles it cannot read

An unreadable profile was compared as an empty one: the output was an
overlap of 0, with exit status 0.
---
 profile_diff.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/profile_diff.cc b/profile_diff.cc
index 64234f2..2fc1d69 100644
--- a/profile_diff.cc
+++ b/profile_diff.cc
@@ -34,8 +34,12 @@ int main(int argc, char **argv) {
   absl::node_hash_set<std::string> names;
   devtools_crosstool_autofdo::LLVMProfileReader reader_1(&symbol_map_1, names);
   devtools_crosstool_autofdo::LLVMProfileReader reader_2(&symbol_map_2, names);
-  reader_1.ReadFromFile(argv[1]);
-  reader_2.ReadFromFile(argv[2]);
+  if (!reader_1.ReadFromFile(args[1])) {
+    LOG(FATAL) << "Cannot read profile " << args[1];
+  }
+  if (!reader_2.ReadFromFile(args[2])) {
+    LOG(FATAL) << "Cannot read profile " << args[2];
+  }
 
   if (absl::GetFlag(FLAGS_compare_function)) {
     symbol_map_1.DumpFuncLevelProfileCompare(symbol_map_2);
-- 
2.43.0


From 83d19016b15910b17e4b8782f1587d71d606360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 33/62] fix: do not pass an unreadable dwp file for one without
 module names

---
 addr2cu.cc | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/addr2cu.cc b/addr2cu.cc
index d314003..33d09af 100644
--- a/addr2cu.cc
+++ b/addr2cu.cc
@@ -27,14 +27,24 @@ absl::StatusOr<std::unique_ptr<llvm::DWARFContext>> CreateDWARFContext(
           obj, llvm::DWARFContext::ProcessDebugRelocations::Process,
           /*const LoadedObjectInfo *L=*/ nullptr, std::string(dwp_file));
   CHECK(dwarf_context != nullptr);
-  if (dwp_file.empty() &&
-      absl::c_any_of(dwarf_context->compile_units(),
-                   [](std::unique_ptr<llvm::DWARFUnit> &cu) {
-                     return cu->getUnitDIE().getTag() ==
-                            llvm::dwarf::DW_TAG_skeleton_unit;
-                   })) {
-    return absl::FailedPreconditionError(
-        "skeleton unit found without a corresponding dwp file");
+  auto is_skeleton = [](std::unique_ptr<llvm::DWARFUnit> &cu) {
+    return cu->getUnitDIE().getTag() == llvm::dwarf::DW_TAG_skeleton_unit;
+  };
+  if (absl::c_any_of(dwarf_context->compile_units(), is_skeleton)) {
+    if (dwp_file.empty()) {
+      return absl::FailedPreconditionError(
+          "skeleton unit found without a corresponding dwp file");
+    }
+    // LLVM does not tell when it cannot read the dwp file.
+    if (absl::c_all_of(dwarf_context->compile_units(),
+                       [&](std::unique_ptr<llvm::DWARFUnit> &cu) {
+                         return !is_skeleton(cu) ||
+                                cu->getNonSkeletonUnitDIE().getTag() ==
+                                    llvm::dwarf::DW_TAG_skeleton_unit;
+                       })) {
+      return absl::FailedPreconditionError(absl::StrFormat(
+          "no split unit could be read from dwp file '%s'", dwp_file));
+    }
   }
   if (!dwarf_context->getNumCompileUnits()) {
     return absl::FailedPreconditionError(
@@ -52,6 +62,10 @@ absl::StatusOr<absl::string_view> Addr2Cu::GetCompileUnitFileNameForCodeAddress(
         "no compile unit found on address 0x%x", code_address));
   }
   llvm::DWARFDie die = unit->getNonSkeletonUnitDIE();
+  if (die.getTag() == llvm::dwarf::DW_TAG_skeleton_unit) {
+    return absl::FailedPreconditionError(absl::StrFormat(
+        "no split unit found for address 0x%x", code_address));
+  }
   std::optional<llvm::DWARFFormValue> form_value =
       die.findRecursively({llvm::dwarf::DW_AT_name});
   llvm::StringRef name = llvm::dwarf::toStringRef(form_value, "");
-- 
2.43.0


From eeacfe06e9ab331720c0b130c1e43f0eaa9a9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 34/62] fix: kernel modules: take the functions of the text
 section, including the first

---
 llvm_propeller_binary_address_mapper.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_address_mapper.cc b/llvm_propeller_binary_address_mapper.cc
index d71128a..6ccbecf 100644
--- a/llvm_propeller_binary_address_mapper.cc
+++ b/llvm_propeller_binary_address_mapper.cc
@@ -59,7 +59,23 @@ ReadSymbolTable(const BinaryContent &binary_content) {
     uint8_t stt = symbol.getELFType();
     if (stt != llvm::ELF::STT_FUNC) continue;
     Expected<uint64_t> address = sr.getAddress();
-    if (!address || !*address) continue;
+    if (!address) continue;
+    if (binary_content.kernel_module.has_value()) {
+      // Addresses of relocatable objects are offsets into their sections. Only
+      // the text section has a segment and a BB address map, and its first
+      // function is at 0.
+      Expected<llvm::object::section_iterator> section = symbol.getSection();
+      if (!section) {
+        llvm::consumeError(section.takeError());
+        continue;
+      }
+      if (*section == binary_content.object_file->section_end() ||
+          (*section)->getIndex() !=
+              binary_content.kernel_module->text_section_index)
+        continue;
+    } else if (!*address) {
+      continue;
+    }
     Expected<StringRef> func_name = symbol.getName();
     if (!func_name) continue;
     const uint64_t func_size = symbol.getSize();
-- 
2.43.0


From 03a971b26ba903a3507219290ebd181e20f672e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:25 +0000
Subject: [PATCH 35/62] fix: choose mappings by every name with the build id,
 not by the kind of one of them

With build ids for both an absolute and a relative name (or the kernel and
its image), whether names were compared as paths or by their last part was
decided by the first name in hash order.
---
 perfdata_reader.cc | 47 ++++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index f609006..82698bb 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -48,44 +48,33 @@ std::string BinaryDataToAscii(absl::string_view data) {
 
 namespace devtools_crosstool_autofdo {
 
-// Given "n", compare it to each of mmap_event.filename. If "n" is absolute,
-// then we compare "n" w/ mmap_event.filename. Otherwise we compare n's name
-// part w/ mmap_event.filename's name part.
+// Given a set of names, compare each of them to mmap_event.filename. If the name
+// is absolute, then we compare it w/ mmap_event.filename. Otherwise we compare
+// its name part w/ mmap_event.filename's name part.
 struct MMapSelector {
   explicit MMapSelector(const absl::flat_hash_set<std::string> &name_set) {
-    std::string n = *(name_set.begin());
-    // Similar to handling kernel image name -> mmap name.
-    // https://source.corp.google.com/piper///depot/google3/devtools/crosstool/autofdo/sample_reader.cc;l=89;rcl=500000000
-    if (name_set.size() == 1 && n == "[kernel.kallsyms]") {
-      target_mmap_name_set = {"[kernel.kallsyms]", "[kernel.kallsyms]_text",
-                              "[kernel.kallsyms]_stext"};
-      path_changer = noop_path_changer;
-    } else if (llvm::sys::path::is_absolute(n)) {
-      target_mmap_name_set = name_set;
-      path_changer = noop_path_changer;
-    } else {
-      for (const std::string &nm : name_set) {
-        target_mmap_name_set.insert(llvm::sys::path::filename(nm).str());
+    // Decide for each name on its own: the set has no order.
+    for (const std::string &n : name_set) {
+      // Similar to handling kernel image name -> mmap name.
+      // https://source.corp.google.com/piper///depot/google3/devtools/crosstool/autofdo/sample_reader.cc;l=89;rcl=500000000
+      if (n == "[kernel.kallsyms]") {
+        full_names.insert({"[kernel.kallsyms]", "[kernel.kallsyms]_text",
+                           "[kernel.kallsyms]_stext"});
+      } else if (llvm::sys::path::is_absolute(n)) {
+        full_names.insert(n);
+      } else {
+        base_names.insert(llvm::sys::path::filename(n).str());
       }
-      path_changer = name_only_path_changer;
     }
   }
 
-  // mmap_fn is always absolute path. If target_mmap_name is absolute, we
-  // compare both directly. Otherwise, we only compare the name part of
-  // mmap_fn.
   bool operator()(const std::string &mmap_fn) const {
-    return target_mmap_name_set.find(path_changer(mmap_fn).str()) !=
-           target_mmap_name_set.end();
+    return full_names.contains(mmap_fn) ||
+           base_names.contains(llvm::sys::path::filename(mmap_fn).str());
   }
 
-  std::function<llvm::StringRef(const std::string &mmap_fn)> path_changer;
-  absl::flat_hash_set<std::string> target_mmap_name_set;
-
-  static llvm::StringRef noop_path_changer(const std::string &n) { return n; }
-  static llvm::StringRef name_only_path_changer(const std::string &n) {
-    return llvm::sys::path::filename(n);
-  }
+  absl::flat_hash_set<std::string> full_names;
+  absl::flat_hash_set<std::string> base_names;
 };
 
 absl::StatusOr<absl::flat_hash_set<std::string>> GetBuildIdNames(
-- 
2.43.0


From 37eee2664dc21cd9d55d5929a2e662b7608c013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 36/62] fix: a branch from the end of a function does not come
 from its empty last block

---
 llvm_propeller_binary_address_mapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_address_mapper.cc b/llvm_propeller_binary_address_mapper.cc
index 6ccbecf..c97226f 100644
--- a/llvm_propeller_binary_address_mapper.cc
+++ b/llvm_propeller_binary_address_mapper.cc
@@ -268,7 +268,9 @@ std::optional<int> BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress(
       return it - bb_handles_.begin();
     }
     case BranchDirection::kFrom: {
-      DCHECK_NE(GetBBEntry(*it).Size, 0);
+      // Nothing branches from a zero-sized block: the address belongs to a
+      // function we don't have, right after a function ending in such a block.
+      if (GetBBEntry(*it).Size == 0) return std::nullopt;
       return it - bb_handles_.begin();
     }
     default:
-- 
2.43.0


From d8da81d27b2a2b54f1de722b6ad3b0ffa50be16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:41 +0000
Subject: [PATCH 37/62] fix: a control-flow graph file that cannot be read to
 its end is an error

TextFormat::Parse takes a read error for the end of the file, so a graph file
cut off between two messages by an I/O error was accepted as a whole one.
---
 llvm_propeller_program_cfg_proto_builder.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_program_cfg_proto_builder.cc b/llvm_propeller_program_cfg_proto_builder.cc
index dee493d..936234c 100644
--- a/llvm_propeller_program_cfg_proto_builder.cc
+++ b/llvm_propeller_program_cfg_proto_builder.cc
@@ -101,7 +101,13 @@ bool ProgramCfgProtoBuilder::Read(const std::string &in_name) {
   google::protobuf::io::FileInputStream fis(fd);
   fis.SetCloseOnDelete(true);
   LOG(INFO) << "Reading from '" << in_name << "'.";
-  return google::protobuf::TextFormat::Parse(&fis, &program_cfg_pb_);
+  if (!google::protobuf::TextFormat::Parse(&fis, &program_cfg_pb_)) return false;
+  // A read error looks like the end of the file to the parser.
+  if (fis.GetErrno() != 0) {
+    LOG(ERROR) << "Failed to read '" << in_name << "'.";
+    return false;
+  }
+  return true;
 }
 
 }  // namespace devtools_crosstool_autofdo
-- 
2.43.0


From 9f90569926009e036f9baec7bf55ba1116bfd74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:22 +0000
Subject: [PATCH 38/62] fix: a profile can be applied on top of graphs which
 have some of its edges

ProgramCfgBuilder is documented to aggregate a profile on top of existing
graphs, but it created a second edge for every edge it did not create itself,
which dies on a check (or, between functions in release builds, splits the
weight over two edges).
---
 llvm_propeller_program_cfg_builder.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/llvm_propeller_program_cfg_builder.cc b/llvm_propeller_program_cfg_builder.cc
index 5099248..549f56f 100644
--- a/llvm_propeller_program_cfg_builder.cc
+++ b/llvm_propeller_program_cfg_builder.cc
@@ -163,6 +163,21 @@ CFGEdge *ProgramCfgBuilder::InternalCreateEdge(
   CFGNode::InterCfgId to_bb_id = {to_bb.function_index, {to_bb.bb_index, 0}};
   CFGEdge *edge = nullptr;
   auto i = tmp_edge_map->find(std::make_pair(from_bb_id, to_bb_id));
+  if (i == tmp_edge_map->end()) {
+    // The edge may be one of the CFGs which this profile is applied on top of.
+    auto from_ni = tmp_node_map.find(from_bb_id),
+         to_ni = tmp_node_map.find(to_bb_id);
+    if (from_ni != tmp_node_map.end() && to_ni != tmp_node_map.end()) {
+      for (CFGEdge::Kind kind :
+           {CFGEdge::Kind::kBranchOrFallthough, CFGEdge::Kind::kCall,
+            CFGEdge::Kind::kRet}) {
+        if (edge != nullptr) break;
+        edge = from_ni->second->GetEdgeTo(*to_ni->second, kind);
+      }
+    }
+    if (edge != nullptr)
+      i = tmp_edge_map->insert({{from_bb_id, to_bb_id}, edge}).first;
+  }
   if (i != tmp_edge_map->end()) {
     edge = i->second;
     if (edge->kind() != edge_kind) {
@@ -293,9 +308,7 @@ absl::Status ProgramCfgBuilder::CreateEdges(
                         stats_->cfg_stats.total_edge_weight_created()));
   }
 
-  if (stats_->cfg_stats.total_edges_created() /
-          static_cast<double>(edges_recorded) <
-      0.0005) {
+  if (tmp_edge_map.size() / static_cast<double>(edges_recorded) < 0.0005) {
     return absl::InternalError(
         "Fewer than 0.05% recorded jumps are converted into CFG edges, "
         "probably because of source drift.");
-- 
2.43.0


From d39a79e7cf93c64f823ed4c64f687e90057fc98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 39/62] fix: only a build id note is a build id

In .notes, where several notes share a section, another GNU note (the ABI
tag, say) before the build id was taken for it.
---
 llvm_propeller_binary_content.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index 7a28c52..db9742a 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -133,7 +133,8 @@ std::string ELFFileUtil<ELFT>::GetBuildId() {
     llvm::Error err = llvm::Error::success();
     for (const typename ELFT::Note &note : elf_file_->notes(shdr, err)) {
       llvm::StringRef r = note.getName();
-      if (r == kBuildIdNoteName) {
+      if (r == kBuildIdNoteName &&
+          note.getType() == llvm::ELF::NT_GNU_BUILD_ID) {
         llvm::ArrayRef<uint8_t> build_id = note.getDesc(shdr.sh_addralign);
         std::string build_id_str(build_id.size() * 2, '0');
         int k = 0;
-- 
2.43.0


From aa38a61aff6ee23b8818e1a4b134841f87613b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:41 +0000
Subject: [PATCH 40/62] fix: names of 16 KiB and more in an AutoFDO profile can
 be read back

The writer accepts names of any length, but the reader died on a check for
names of 16384 bytes and more, although its buffer grows as needed.
---
 gcov.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcov.cc b/gcov.cc
index b4087c9..7d9e85a 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -110,6 +110,7 @@ static inline void gcov_allocate(unsigned byte_length) {
   gcov_var.byte_alloc = new_byte_size;
   gcov_var.buffer =
       static_cast<char *>(realloc(gcov_var.buffer, new_byte_size));
+  CHECK(gcov_var.buffer != nullptr);
 }
 
 static inline char *gcov_write_bytes(unsigned bytes) {
@@ -176,7 +177,6 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
   unsigned excess_bytes = gcov_var.byte_length - gcov_var.byte_offset;
 
   CHECK_GT(gcov_var.mode, 0);
-  CHECK(bytes < GCOV_BLOCK_BYTE_SIZE);
   // Nothing read after a failed read is meaningful.
   if (gcov_var.error) {
     return 0;
-- 
2.43.0


From ecfb20763c17249ae94735a8766b1f3ad1cd5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 41/62] fix: a fall-through range cannot end in another binary

Only the start of a range between two branch records was checked to be in
the binary of interest. When the next record starts in another binary (for
example in a signal handler, with user-only sampling), offsets of two files
made up a range.
---
 sample_reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index ee419b8..81289b6 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -353,6 +353,12 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
         LOG(WARNING) << "Bogus LBR data (duplicated top entry)";
         continue;
       }
+      // Offsets in different binaries do not make a range.
+      if (!MatchBinary(event.branch_stack[i - 1].from)) {
+        LOG(WARNING) << "Bogus LBR data (range ends in another binary)"
+                     << " index=" << i;
+        continue;
+      }
       uint64_t begin = event.branch_stack[i].to.offset();
       uint64_t end = event.branch_stack[i - 1].from.offset();
       // The interval between two taken branches should not be too large.
-- 
2.43.0


From dda0e5816a532e8468f9e0abecd655ec9b17a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:05 +0000
Subject: [PATCH 42/62] fix: a sample in front of the first executable segment
 does not end the run

---
 symbol_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbol_map.h b/symbol_map.h
index b2f6d12..9b4d1a2 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -336,7 +336,8 @@ class SymbolMap {
     uint64_t unset_addr = std::numeric_limits<uint64_t>::max();
     uint64_t base_addr = unset_addr;
     for (auto &seg : loadable_exec_segments_) {
-      if (offset < seg.offset) break;
+      // The first segment is mapped from the start of the page it begins in.
+      if (offset < seg.offset && base_addr != unset_addr) break;
       base_addr = seg.vaddr - seg.offset;
     }
     assert(base_addr != unset_addr);
-- 
2.43.0


From 361ebcc1b999d04bb82c581132f1d170dd9f5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:05 +0000
Subject: [PATCH 43/62] fix: debug information of Clang in DWARF 5 can be read

.debug_str_offsets was not loaded, the indexed address forms were skipped by a
wrong length, the bases were used before the unit DIE gave them, and neither
MD5 sums of files nor indexed ranges of a unit were accepted.
---
 legacy_addr2line.cc                     |  3 +-
 util/symbolize/addr2line_inlinestack.cc |  4 ++-
 util/symbolize/dwarf2reader.cc          | 37 +++++++++++++++++++++++--
 util/symbolize/dwarf2reader.h           |  4 +++
 4 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index c6fe029..a2eb499 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -91,7 +91,8 @@ bool Google3Addr2line::Prepare() {
   SectionMap sections;
   const char *debug_section_names[] = {
     ".debug_line", ".debug_abbrev", ".debug_info", ".debug_str",
-    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str"
+    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str",
+    ".debug_str_offsets"
   };
   for (const char *section_name : debug_section_names) {
     size_t section_size;
diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 1ce0c95..723855e 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -351,7 +351,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
-          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_);
+          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_, addr_base_);
         }
         else {
           CHECK(form == DW_FORM_rnglistx);
@@ -442,6 +442,8 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         str_offset_base_ = data;
         break;
       case DW_AT_ranges: 
+        // An index, which is not an offset in .debug_rnglists.
+        if (form == DW_FORM_rnglistx) break;
         CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
         FALLTHROUGH_INTENDED;
       case DW_AT_GNU_ranges_base:
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 79d7ef7..2819b5c 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -269,6 +269,7 @@ const char* CompilationUnit::SkipAttribute(const char* start, enum DwarfForm for
       break;
     case DW_FORM_strp:
     case DW_FORM_strp_sup:
+    case DW_FORM_line_strp:
     case DW_FORM_sec_offset:
         return start + reader_->OffsetSize();
       break;
@@ -807,7 +808,7 @@ const char* CompilationUnit::ProcessAttribute(
     case DW_FORM_GNU_addr_index: {
       CHECK(addr_buffer_ != NULL);
       uint64 addr_index = 0;
-      size_t len;
+      size_t len = 0;
       switch (form) {
         case DW_FORM_addrx1: {
           addr_index = reader_->ReadOneByte(start);
@@ -815,7 +816,7 @@ const char* CompilationUnit::ProcessAttribute(
             break;
         }
         case DW_FORM_addrx2: {
-          uint64 addr_index = reader_->ReadTwoBytes(start);
+          addr_index = reader_->ReadTwoBytes(start);
           len += 2;
             break;
         }
@@ -842,7 +843,7 @@ const char* CompilationUnit::ProcessAttribute(
                                                                 reader_->AddressSize())
                           );
       ProcessAttributeUnsigned(dieoffset, attr, form, v);
-      return start + 1;
+      return start + len;
       break;  
     }
     case DW_FORM_implicit_const: {
@@ -867,9 +868,34 @@ void CompilationUnit::ProcessAttributeUnsigned(uint64 offset,
     handler_->ProcessAttributeUnsigned(offset, attr, form, data);
   }
 
+void CompilationUnit::ReadUnitBases(const char* start, const Abbrev& abbrev) {
+  for (const AttributeSpec& spec : abbrev.attributes) {
+    if (spec.form == DW_FORM_sec_offset) {
+      switch (spec.name) {
+        case DW_AT_str_offsets_base:
+          handler_->set_str_offset_base(reader_->ReadOffset(start));
+          break;
+        case DW_AT_addr_base:
+          handler_->set_addr_base(reader_->ReadOffset(start));
+          break;
+        case DW_AT_rnglists_base:
+          handler_->set_range_base(reader_->ReadOffset(start));
+          break;
+        default:
+          break;
+      }
+    }
+    start = SkipAttribute(start, spec.form);
+  }
+}
+
 const char* CompilationUnit::ProcessDIE(uint64 dieoffset,
                                         const char* start,
                                         const Abbrev& abbrev) {
+  if (header_.version >= 5 && (abbrev.tag == DW_TAG_compile_unit ||
+                               abbrev.tag == DW_TAG_skeleton_unit)) {
+    ReadUnitBases(start, abbrev);
+  }
   for (AttributeList::const_iterator i = abbrev.attributes.begin();
        i != abbrev.attributes.end();
        i++)  {
@@ -1684,6 +1710,11 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
+          } else if (content_types[col] == DW_LNCT_MD5 &&
+                     content_forms[col] == DW_FORM_data16) {
+            if (!AdvanceLinePtr(16, &lineptr)) {
+              return;
+            }
           } else {
             malformed_ = true;
             return;
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 130f45e..32e1256 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -561,6 +561,10 @@ class CompilationUnit {
   void ReadDebugAddressTableHeader(const char* addr_ptr,
                                   uint64 addr_length);     
 
+  // Tells the handler the bases which the unit DIE gives for the indexed forms.
+  // Attributes in these forms may precede the base in the same DIE.
+  void ReadUnitBases(const char* start, const Abbrev& abbrev);
+
   // Processes a single DIE for this compilation unit.
   //
   // Returns a new pointer just past the end of it, or NULL if a
-- 
2.43.0


From ff0a624e2bbae75384bcd572e85f887bd0ef271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:10 +0000
Subject: [PATCH 44/62] fix: a binary with a short build id is found in perf
 data

---
 perfdata_reader.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index 82698bb..268893d 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -77,6 +77,15 @@ struct MMapSelector {
   absl::flat_hash_set<std::string> base_names;
 };
 
+// perf data has build ids of 20 bytes: shorter ones are followed by zeros.
+std::string PadBuildId(absl::string_view build_id) {
+  constexpr size_t kPerfBuildIdStringLength = 40;
+  std::string padded(build_id);
+  if (padded.size() < kPerfBuildIdStringLength)
+    padded.resize(kPerfBuildIdStringLength, '0');
+  return padded;
+}
+
 absl::StatusOr<absl::flat_hash_set<std::string>> GetBuildIdNames(
     const quipper::PerfReader &perf_reader, absl::string_view build_id) {
   absl::flat_hash_set<std::string> build_id_names;
@@ -87,7 +96,7 @@ absl::StatusOr<absl::flat_hash_set<std::string>> GetBuildIdNames(
     std::string ascii_build_id =
         BinaryDataToAscii(build_id_entry.build_id_hash());
     existing_build_ids.emplace_back(build_id_entry.filename(), ascii_build_id);
-    if (ascii_build_id == build_id) {
+    if (PadBuildId(ascii_build_id) == PadBuildId(build_id)) {
       const std::string &filename = build_id_entry.filename();
       if (filename.empty()) continue;
       // Similar to:
-- 
2.43.0


From 975b5733ae1d75f0096ec71785bf1cbf0b54fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:05 +0000
Subject: [PATCH 45/62] fix: base discriminators of flow-sensitive
 discriminators are the low bits, not an encoded number

---
 source_info.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_info.h b/source_info.h
index a8f4a8f..c82af61 100644
--- a/source_info.h
+++ b/source_info.h
@@ -46,7 +46,7 @@ struct SourceInfo {
         line - start_line,
         (use_base_discriminator
              ? llvm::DILocation::getBaseDiscriminatorFromDiscriminator(
-                   discriminator)
+                   discriminator, use_fs_discriminator)
              : discriminator));
 #else
     return (static_cast<uint64_t>(line - start_line) << 32) | discriminator;
-- 
2.43.0


From 43d1dfa69ae90655082a088dfb04fae9bc09381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:05 +0000
Subject: [PATCH 46/62] fix: symbols of other sections of a kernel module took
 the place of functions of .text in AutoFDO

---
 symbol_map.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index a9e1867..ef27dc0 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -505,9 +505,19 @@ void SymbolMap::BuildSymbolMap() {
   SourceInfo::use_base_only_in_fs_discriminator = false;
 #endif
   SymbolReader symbol_reader(&name_alias_map_, &address_symbol_map_);
-  symbol_reader.filter = [](const char *name, uint64_t address, uint64_t size,
-                            int binding, int type, int section) {
+  // The sections of a kernel module all start at address 0, so symbols of
+  // other sections must not stand in for those of .text (see
+  // ReadLoadableExecSegmentInfo).
+  const bool text_symbols_only =
+      IsKernelModule(binary_) && elf_reader.GetSegmentInfo().empty();
+  symbol_reader.filter = [&](const char *name, uint64_t address, uint64_t size,
+                             int binding, int type, int section) {
     if (strcmp(name, get_fs_discriminator_symbol()) == 0) return true;
+    if (text_symbols_only &&
+        (section == SHN_UNDEF || section >= SHN_LORESERVE ||
+         absl::NullSafeStringView(elf_reader.GetSectionName(section)) !=
+             ".text"))
+      return false;
 
     static const std::regex kSuffixRe(R"(\.__part\.\d+$)");
     return (size != 0 &&
-- 
2.43.0


From a716943c81e1f2ff5e9ccfe14cf6e2db438c59cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 47/62] fix: debug information of kernel modules was mixed up
 between sections and compile units starting at the same address

---
 addr2line.cc | 67 +++++++++++++++++++++++++++++++++++++++++++++++++---
 addr2line.h  |  6 +++++
 2 files changed, 70 insertions(+), 3 deletions(-)

diff --git a/addr2line.cc b/addr2line.cc
index af9fba1..1cc2363 100644
--- a/addr2line.cc
+++ b/addr2line.cc
@@ -26,6 +26,7 @@
 #include "llvm/DebugInfo/DWARF/DWARFFormValue.h"
 #include "llvm/Object/Binary.h"
 #include "llvm/Object/ObjectFile.h"
+#include "llvm/Support/Alignment.h"
 #include "llvm/Support/Error.h"
 
 ABSL_RETIRED_FLAG(bool, use_legacy_symbolizer, false,
@@ -49,6 +50,40 @@ llvm::object::OwningBinary<llvm::object::ObjectFile> GetOwningBinary(
   }
   return std::move(object_owning_binary_or_err.get());
 }
+
+// All sections of a kernel module start at address 0. Gives the code outside of
+// .text other addresses, so that it is not taken for code of .text.
+class ModuleLayout : public llvm::LoadedObjectInfoHelper<ModuleLayout> {
+ public:
+  explicit ModuleLayout(const llvm::object::ObjectFile &module) {
+    uint64_t end = 0;
+    for (const auto &section : module.sections()) {
+      if (IsMainText(section)) end = section.getAddress() + section.getSize();
+    }
+    for (const auto &section : module.sections()) {
+      if (!section.isText() || IsMainText(section)) continue;
+      end = llvm::alignTo(end + 1, section.getAlignment());
+      address_[section.getIndex()] = end;
+      end += section.getSize();
+    }
+  }
+  uint64_t getSectionLoadAddress(
+      const llvm::object::SectionRef &section) const override {
+    auto iter = address_.find(section.getIndex());
+    return iter == address_.end() ? 0 : iter->second;
+  }
+
+ private:
+  static bool IsMainText(const llvm::object::SectionRef &section) {
+    llvm::Expected<llvm::StringRef> name = section.getName();
+    if (!name) {
+      llvm::consumeError(name.takeError());
+      return false;
+    }
+    return *name == ".text";
+  }
+  std::map<uint64_t, uint64_t> address_;  // by section index
+};
 }  // namespace
 
 namespace devtools_crosstool_autofdo {
@@ -68,16 +103,42 @@ LLVMAddr2line::LLVMAddr2line(absl::string_view binary_name)
 
 bool LLVMAddr2line::Prepare() {
   if (!binary_.getBinary()) return false;
-  dwarf_info_ = llvm::DWARFContext::create(*binary_.getBinary());
+  std::unique_ptr<ModuleLayout> layout;
+  if (IsKernelModule(binary_.getBinary()->getFileName()))
+    layout = std::make_unique<ModuleLayout>(*binary_.getBinary());
+  dwarf_info_ = llvm::DWARFContext::create(
+      *binary_.getBinary(), llvm::DWARFContext::ProcessDebugRelocations::Process,
+      layout.get());
   for (auto &unit : dwarf_info_->compile_units()) {
     unit_map_[unit->getOffset()] = unit.get();
+    if (layout == nullptr) continue;
+    // LLVM does not relocate .debug_aranges.
+    llvm::Expected<llvm::DWARFAddressRangesVector> ranges =
+        unit->collectAddressRanges();
+    if (!ranges) {
+      LOG(WARNING) << llvm::toString(ranges.takeError());
+      continue;
+    }
+    for (const llvm::DWARFAddressRange &range : *ranges) {
+      if (range.LowPC >= range.HighPC) continue;
+      module_ranges_.emplace(range.LowPC,
+                             std::make_pair(range.HighPC, unit->getOffset()));
+    }
   }
   return true;
 }
 
+uint64_t LLVMAddr2line::FindUnit(uint64_t address) const {
+  if (!IsKernelModule(getObject()->getFileName()))
+    return dwarf_info_->getDebugAranges()->findAddress(address);
+  auto range = module_ranges_.upper_bound(address);
+  if (range == module_ranges_.begin()) return -1ULL;
+  --range;
+  return address < range->second.first ? range->second.second : -1ULL;
+}
+
 void LLVMAddr2line::GetInlineStack(uint64_t address, SourceStack *stack) const {
-  auto cu_iter =
-      unit_map_.find(dwarf_info_->getDebugAranges()->findAddress(address));
+  auto cu_iter = unit_map_.find(FindUnit(address));
   if (cu_iter == unit_map_.end()) return;
   const llvm::DWARFDebugLine::LineTable *line_table =
       dwarf_info_->getLineTableForUnit(cu_iter->second);
diff --git a/addr2line.h b/addr2line.h
index dcafb59..e5848b9 100644
--- a/addr2line.h
+++ b/addr2line.h
@@ -63,8 +63,14 @@ class LLVMAddr2line : public Addr2line {
   }
 
  private:
+  // Returns the offset of the compile unit with the code at ADDRESS, or -1.
+  uint64_t FindUnit(uint64_t address) const;
+
   // map from cu_offset to the CompileUnit.
   std::map<uint32_t, llvm::DWARFUnit *> unit_map_;
+  // For kernel modules, from the start of a range of code to its end and the
+  // offset of its compile unit.
+  std::map<uint64_t, std::pair<uint64_t, uint64_t>> module_ranges_;
   llvm::object::OwningBinary<llvm::object::ObjectFile> binary_;
   std::unique_ptr<llvm::DWARFContext> dwarf_info_;
 };
-- 
2.43.0


From a270931f6111796411359ca3b196722336145d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:06 +0000
Subject: [PATCH 48/62] fix: Sort the edges of given initial chains

SortIntraChainEdges() is to be called whenever the edges within a chain
change, as the score gain of splitting a chain looks only at the edges at
one end of the list. The edges of initial chains were not sorted, so that
some were left out and other than the best merges were chosen.
---
 llvm_propeller_node_chain_builder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llvm_propeller_node_chain_builder.cc b/llvm_propeller_node_chain_builder.cc
index cb1d5fc..afc8b1d 100644
--- a/llvm_propeller_node_chain_builder.cc
+++ b/llvm_propeller_node_chain_builder.cc
@@ -511,6 +511,7 @@ void NodeChainBuilder::InitChainEdges() {
     });
   }
   for (auto &[chain_id, chain] : chains_) {
+    chain->SortIntraChainEdges(*node_to_bundle_mapper_);
     chain->SetScore(
         chain->ComputeScore(*node_to_bundle_mapper_, code_layout_scorer_));
   }
-- 
2.43.0


From 59d3cb3e7590f1c0c0101f52d3e20360efa79b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:40 +0000
Subject: [PATCH 49/62] fix: Read the line of a declaration given as an
 implicit constant

GCC writes DW_AT_decl_line as DW_FORM_implicit_const when all functions that
share an abbreviation are declared on the same line (functions generated by
one macro, for example). Their start line was taken to be 0.
---
 util/symbolize/addr2line_inlinestack.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 723855e..faeea5a 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -494,6 +494,11 @@ void InlineStackHandler::ProcessAttributeSigned(
         CHECK(form == DW_FORM_implicit_const);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
+      case DW_AT_decl_line:
+        if (die_stack_.back() == DW_TAG_subprogram) {
+          subprogram_stack_.back()->set_callsite_line(data);
+        }
+        break;
 
       default:
         break;
-- 
2.43.0


From 476d045015c035b0620e6a44fc6d14331d7d1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:55 +0000
Subject: [PATCH 50/62] fix: Keep functions that are nested in other functions

A subprogram inside another one that is not inlined (nested functions of GNU C,
contained procedures of Fortran) has code of its own, outside of its parent's.
It was dropped as if it were an inlined call that is not a subset of the
function it was inlined into, and its code had no function.
---
 util/symbolize/addr2line_inlinestack.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index faeea5a..f2970fb 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -646,13 +646,14 @@ void InlineStackHandler::FindBadSubprograms(
   // subprograms are stored in a leaf-to-parent order in
   // subprogram_insert_order_, it suffices to scan the vector
   // backwards once.
-  // Also, if a subprogram is not a subset of its parent, mark it bad.
+  // Also, if an inlined subprogram is not a subset of its parent, mark it bad.
+  // A nested function, which is not inlined, has code of its own.
   for (std::vector<SubprogramInfo *>::reverse_iterator subprogs =
            subprogram_insert_order_.rbegin();
        subprogs != subprogram_insert_order_.rend();
        ++subprogs) {
     SubprogramInfo *subprog = *subprogs;
-    if (subprog->parent()) {
+    if (subprog->parent() && subprog->inlined()) {
       if (bad_subprograms->find(subprog->parent()) != bad_subprograms->end() ||
           !SubprogramContains(subprog->parent(), subprog)) {
         bad_subprograms->insert(subprog);
-- 
2.43.0


From f17516a78b485f270038e783327dcd137b416e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 51/62] fix: A compilation unit does not inherit the directory
 of another one

Relative file names of a unit without DW_AT_comp_dir were taken to be relative
to the compilation directory of the unit before it.
---
 util/symbolize/addr2line_inlinestack.cc | 4 +++-
 util/symbolize/addr2line_inlinestack.h  | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index f2970fb..ff20d0f 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -103,6 +103,7 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   CHECK(subprogram_stack_.empty());
   compilation_unit_offset_ = offset;
   compilation_unit_base_ = 0;
+  have_comp_dir_ = false;
   have_two_level_line_tables_ = false;
   subprogram_added_by_cu_ = false;
   if (input_file_index_ == -1) {
@@ -202,7 +203,7 @@ bool InlineStackHandler::StartDIE(uint64 offset,
           subprogram_stack_.empty() ? NULL : subprogram_stack_.back();
       SubprogramInfo *child = new SubprogramInfo(input_file_index_,
                                                  offset, parent, inlined);
-      if (!compilation_unit_comp_dir_.empty())
+      if (have_comp_dir_)
         child->set_comp_directory(compilation_unit_comp_dir_.back()->c_str());
       SubprogramsByOffsetMap* subprograms_by_offset =
           subprograms_by_offset_maps_[input_file_index_];
@@ -243,6 +244,7 @@ void InlineStackHandler::ProcessAttributeString(
     enum DwarfForm form, const char *data) {
   if (attr == DW_AT_comp_dir) {
     compilation_unit_comp_dir_.emplace_back(new string(data));
+    have_comp_dir_ = true;
   }
 
   if (!subprogram_stack_.empty()) {
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index 0bf46cc..c7ae85e 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -278,6 +278,8 @@ class InlineStackHandler: public Dwarf2Handler {
   // directories that we've seen, because SubprogramInfo keeps
   // StringPiece objects pointing to these copies.
   std::vector<string*> compilation_unit_comp_dir_;
+  // Whether the current compilation unit has a comp dir: the last one seen.
+  bool have_comp_dir_ = false;
   const std::map<uint64_t, uint64_t> *sampled_functions_;
   int overlap_count_;
   bool have_two_level_line_tables_;
-- 
2.43.0


From 0511921e7eed2abe3ebcd27920af1f4ac679c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:03 +0000
Subject: [PATCH 52/62] fix: A line at the very end of a sequence does not
 erase the start of another

Such a line covers no code. When another sequence, read before, starts at that
address, its first line was replaced and then lost.
---
 util/symbolize/functioninfo.cc | 10 ++++++++--
 util/symbolize/functioninfo.h  |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index f3b39a1..7cd5e31 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -168,12 +168,18 @@ void CULineInfoHandler::AddLine(uint64 address, uint32 file_num,
   }
   if (end_sequence) {
     // Another sequence, already read, may start where this one ends. Its first
-    // line must survive.
-    if (last_line_address_ == address || !linemap_->HasAddress(address)) {
+    // line must survive, even if this sequence has lines at its very end, which
+    // cover nothing.
+    if (last_line_address_ == address) {
+      linemap_->AddActual(address, displaced_line_);
+    } else if (!linemap_->HasAddress(address)) {
       linemap_->AddActual(address, 0);
     }
     last_line_address_ = kNoAddress;
   } else {
+    if (last_line_address_ != address) {
+      displaced_line_ = linemap_->GetActual(address);
+    }
     last_line_address_ = address;
     if (GetLogicals() == NULL) {
       if (file_num < files_->size()) {
diff --git a/util/symbolize/functioninfo.h b/util/symbolize/functioninfo.h
index 2ab6494..04ba907 100644
--- a/util/symbolize/functioninfo.h
+++ b/util/symbolize/functioninfo.h
@@ -152,6 +152,12 @@ class AddressToLineMap {
     return line_map_.find(addr) != line_map_.end();
   }
 
+  // Returns what was added for "addr", or 0.
+  uint32 GetActual(uint64_t addr) const {
+    const_iterator it = line_map_.find(addr);
+    return it == line_map_.end() ? 0 : it->second;
+  }
+
   const_iterator begin() const {
     return line_map_.begin();
   }
@@ -300,6 +306,8 @@ class CULineInfoHandler: public LineInfoHandler {
   // The address of the last line added in the current sequence.
   static constexpr uint64 kNoAddress = ~0ULL;
   uint64 last_line_address_ = kNoAddress;
+  // What was there before the first line at that address.
+  uint32 displaced_line_ = 0;
   DISALLOW_EVIL_CONSTRUCTORS(CULineInfoHandler);
 };
 
-- 
2.43.0


From 7f1076addef6e9259589c13a6c506a3af14fe8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 53/62] fix: Read the units that follow a type unit or a
 partial unit

Since DWARF 5 type units are part of .debug_info (-fdebug-types-section), and
dwz adds partial units. The reader gave up on the whole rest of the section at
the first of them, so that most code had neither functions nor lines.
---
 util/symbolize/dwarf2reader.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 2819b5c..46d6c88 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -390,10 +390,13 @@ void CompilationUnit::ReadHeader() {
       }
       header_.unit_type = reader_->ReadOneByte(headerptr);
       if (header_.unit_type != DwarfUnitType::DW_UT_compile &&
+          header_.unit_type != DwarfUnitType::DW_UT_type &&
+          header_.unit_type != DwarfUnitType::DW_UT_partial &&
           header_.unit_type != DwarfUnitType::DW_UT_skeleton &&
-          header_.unit_type != DwarfUnitType::DW_UT_split_compile) 
+          header_.unit_type != DwarfUnitType::DW_UT_split_compile &&
+          header_.unit_type != DwarfUnitType::DW_UT_split_type)
       {
-          LOG(INFO) << "Only full compilation unit and skeleton unit types are supported.";
+          LOG(INFO) << "Unknown unit type.";
           malformed_ = true;
           return;
       }
@@ -520,6 +523,14 @@ uint64 CompilationUnit::Start() {
   else
     ourlength += 4;
 
+  // Type units, which are among the other units since DWARF 5, describe no
+  // code.
+  if (header_.version == 5 &&
+      (header_.unit_type == DwarfUnitType::DW_UT_type ||
+       header_.unit_type == DwarfUnitType::DW_UT_split_type)) {
+    return ourlength;
+  }
+
   if (is_split_dwarf_) {
     // If the user does not want it, just return.
     if (!handler_->StartSplitCompilationUnit(offset_from_section_start_,
-- 
2.43.0


From 11f72e3de88edd10ff25d4f66541b951e864ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 54/62] fix: Accept all forms of references within a unit, and
 of call sites

dwz writes references as DW_FORM_ref_udata, other producers (Go) the line of a
call as DW_FORM_udata. Reading such a binary was fatal.
---
 util/symbolize/addr2line_inlinestack.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index ff20d0f..5b91f11 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -300,20 +300,24 @@ void InlineStackHandler::ProcessAttributeUnsigned(
       case DW_AT_call_line:
         CHECK(form == DW_FORM_data1 ||
               form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
+              form == DW_FORM_data4 ||
+              form == DW_FORM_udata);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
       case DW_AT_GNU_discriminator:
         CHECK(form == DW_FORM_data1 ||
               form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
+              form == DW_FORM_data4 ||
+              form == DW_FORM_udata);
         subprogram_stack_.back()->set_callsite_discr(data);
         break;
       case DW_AT_abstract_origin:
         if (form == DW_FORM_ref_addr) {
           subprogram_stack_.back()->set_abstract_origin(data);
         } else {
-          CHECK(form == DW_FORM_ref4);
+          CHECK(form == DW_FORM_ref1 || form == DW_FORM_ref2 ||
+                form == DW_FORM_ref4 || form == DW_FORM_ref8 ||
+                form == DW_FORM_ref_udata);
           subprogram_stack_.back()->set_abstract_origin(
             compilation_unit_offset_ + data);
         }
@@ -322,7 +326,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         if (form == DW_FORM_ref_addr) {
           subprogram_stack_.back()->set_specification(data);
         } else {
-          CHECK(form == DW_FORM_ref4);
+          CHECK(form == DW_FORM_ref1 || form == DW_FORM_ref2 ||
+                form == DW_FORM_ref4 || form == DW_FORM_ref8 ||
+                form == DW_FORM_ref_udata);
           subprogram_stack_.back()->set_specification(
               compilation_unit_offset_ + data);
         }
-- 
2.43.0


From 091dbd6f76b1eb6aea188071e2c4ace983659aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 55/62] fix: Range lists of split compilation units

The offsets in a GNU .dwo file are relative to DW_AT_GNU_ranges_base of the
skeleton unit; those of a DWARF 5 .dwo file to the first table of its own
.debug_rnglists, which has no DW_AT_rnglists_base, so that reading one ended
in a failed check. The range lists of a .dwo file also stayed in use after it.
---
 util/symbolize/addr2line_inlinestack.cc | 15 ++++++++++++--
 util/symbolize/addr2line_inlinestack.h  |  6 ++++++
 util/symbolize/dwarf2reader.cc          | 26 +++++++++++++------------
 util/symbolize/dwarf3ranges.h           |  5 +++++
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 5b91f11..699e5bf 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -103,6 +103,7 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   CHECK(subprogram_stack_.empty());
   compilation_unit_offset_ = offset;
   compilation_unit_base_ = 0;
+  split_ranges_base_ = 0;
   have_comp_dir_ = false;
   have_two_level_line_tables_ = false;
   subprogram_added_by_cu_ = false;
@@ -124,6 +125,10 @@ bool InlineStackHandler::NeedSplitDebugInfo() {
 bool InlineStackHandler::StartSplitCompilationUnit(uint64 offset,
                                                    uint64 /*cu_length*/) {
   compilation_unit_offset_ = offset;
+  in_split_unit_ = true;
+  // A split unit has no DW_AT_rnglists_base: its range lists are those of the
+  // first table of its own .debug_rnglists section.
+  if (dwarf_version_ >= 5) ranges_base_ = address_ranges_->FirstRngListsBase();
   input_file_index_ = subprograms_by_offset_maps_.size();
   subprograms_by_offset_maps_.push_back(new SubprogramsByOffsetMap);
   return true;
@@ -136,6 +141,7 @@ bool InlineStackHandler::EndSplitCompilationUnit() {
   }
   // Now that we get back to the binary file, input_file_index_ is reset to 0.
   input_file_index_ = 0;
+  in_split_unit_ = false;
   return true;
 }
 
@@ -359,7 +365,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
-          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_, addr_base_);
+          uint64 offset =
+              in_split_unit_ && dwarf_version_ < 5 ? split_ranges_base_ + data : data;
+          address_ranges_->ReadRangeList(offset, compilation_unit_base_, &ranges, dwarf_version_, addr_base_);
         }
         else {
           CHECK(form == DW_FORM_rnglistx);
@@ -453,8 +461,11 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         // An index, which is not an offset in .debug_rnglists.
         if (form == DW_FORM_rnglistx) break;
         CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
-        FALLTHROUGH_INTENDED;
+        ranges_base_ = data;
+        break;
       case DW_AT_GNU_ranges_base:
+        split_ranges_base_ = data;
+        FALLTHROUGH_INTENDED;
       case DW_AT_rnglists_base:
         ranges_base_ = data;     
         break;
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index c7ae85e..7b84386 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -227,6 +227,8 @@ class InlineStackHandler: public Dwarf2Handler {
     address_ranges_ = address_ranges;
   }
 
+  AddressRangeList *address_range_list() const { return address_ranges_; }
+
   const SubprogramInfo *GetSubprogramForAddress(uint64 address);
 
   const SubprogramInfo *GetDeclaration(const SubprogramInfo *subprog) const;
@@ -272,6 +274,10 @@ class InlineStackHandler: public Dwarf2Handler {
   NonOverlappingRangeMap<SubprogramInfo*> subprograms_by_address_;
   uint64 compilation_unit_offset_;
   uint64 compilation_unit_base_;
+  // What the range list offsets of the split unit belonging to the current
+  // (skeleton) unit are relative to, before DWARF 5.
+  uint64 split_ranges_base_ = 0;
+  bool in_split_unit_ = false;
   // The comp dir name may come from a .dwo file's string table, which
   // will be destroyed before we're done, so we need to copy it for
   // each compilation unit.  We need to keep a vector of all the
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 46d6c88..171d1ac 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -19,6 +19,7 @@
 #include <unistd.h>
 #include <stdint.h>
 #include <string.h>
+#include <memory>
 #include <stack>
 #include <utility>
 
@@ -1056,29 +1057,30 @@ void CompilationUnit::ProcessSplitDwarf() {
         const char *debug_ranges_data = NULL;
         size_t debug_rnglist_size = 0;
         const char *debug_rnglist_data = NULL;
+        InlineStackHandler *ranges_handler = NULL;
+        AddressRangeList *binary_ranges = NULL;
+        std::unique_ptr<AddressRangeList> dwo_ranges;
         if (iter != sections.end()) {
           debug_rnglist_data = iter->second.first;
           debug_rnglist_size = iter->second.second;
-          AddressRangeList *debug_ranges = 
-                new AddressRangeList(debug_ranges_data,
-                                      debug_ranges_size,
-                                      debug_rnglist_data,
-                                      debug_rnglist_size,
-                                      &reader,
-                                      addr_buffer_, 
-                                      addr_buffer_length_);
-          InlineStackHandler *inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
-          if(!inlinestackhandler)  {
+          dwo_ranges = std::make_unique<AddressRangeList>(
+              debug_ranges_data, debug_ranges_size, debug_rnglist_data,
+              debug_rnglist_size, &reader, addr_buffer_, addr_buffer_length_);
+          ranges_handler = dynamic_cast<InlineStackHandler*>(handler_);
+          if(!ranges_handler)  {
             LOG(FATAL) << "It is not possbile to process the .debug_rnglists sections in seperate .dwo files without InlineStackHandler.";
           }
-          inlinestackhandler->set_address_range_list(debug_ranges);
+          binary_ranges = ranges_handler->address_range_list();
+          ranges_handler->set_address_range_list(dwo_ranges.get());
         }
 
-        
         CompilationUnit dwo_comp_unit(dwo_name_, sections, 0, &reader,
                                       handler_);
         dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
         dwo_comp_unit.Start();
+        // The range lists of the .dwo file end with it.
+        if (ranges_handler != NULL)
+          ranges_handler->set_address_range_list(binary_ranges);
         if (dwo_comp_unit.malformed())
           LOG(WARNING) << "File '" << dwo_name_ << "' has mangled "
                        << ".debug_info.dwo section.";
diff --git a/util/symbolize/dwarf3ranges.h b/util/symbolize/dwarf3ranges.h
index fc0299c..1361dd5 100644
--- a/util/symbolize/dwarf3ranges.h
+++ b/util/symbolize/dwarf3ranges.h
@@ -118,6 +118,11 @@ class AddressRangeList {
 
   uint64 GetRngListsElementOffsetByIndex(uint64 addr_base, uint64 rng_index);
 
+  // Returns the base of the first table of .debug_rnglists, 0 if there is none.
+  uint64 FirstRngListsBase() const {
+    return rngdatamap_.empty() ? 0 : rngdatamap_.begin()->first;
+  }
+
  private:
 
   uint64 ReadOffset(const char** offsetarrayptr);
-- 
2.43.0


From d81048ec11abc10e59e2faae84492b91dc54192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:20 +0000
Subject: [PATCH 56/62] fix: Numbering of functions when the cycles of the call
 graph are found

Every function must get an index of its own; siblings got the same one, so
functions of different cycles were taken for one cycle or the cycle was missed
("Found a Loop").
---
 symbol_map.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index ef27dc0..cd491a1 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -812,7 +812,7 @@ class CallGraph {
   void TopoVisit(SCCNode *node, absl::flat_hash_set<SCCNode *> *workingset,
                  std::vector<SCCNode *> *sorted);
   SCCNode *CreateSCCNode(Symbol *sym);
-  void StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+  void StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                      SCCMap *sccmap);
   void CollapseSCC(SCCMap *sccmap);
 
@@ -863,11 +863,11 @@ SCCNode *CallGraph::FindOrCreateSCCNode(Symbol *sym) {
 
 // Find the strongly connected component using DFS. sccmap is the map mapping
 // each node to the root node of the SCC where node belongs to.
-void CallGraph::StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+void CallGraph::StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                               SCCMap *sccmap) {
-  node->index = index;
-  node->lowlink = index;
-  index++;
+  node->index = *index;
+  node->lowlink = *index;
+  (*index)++;
   stack->push_back(node);
 
   for (auto *callee : node->callees) {
@@ -924,7 +924,7 @@ void CallGraph::FindAndCollapseSCC() {
   NodeStack stack;
   SCCMap sccmap;
   for (auto *node : nodes) {
-    if (!node->index) StrongConnect(node, index, &stack, &sccmap);
+    if (!node->index) StrongConnect(node, &index, &stack, &sccmap);
   }
   CollapseSCC(&sccmap);
 }
-- 
2.43.0


From f012ae3fea6870200bea8403846c0f8ac3d2fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:20 +0000
Subject: [PATCH 57/62] fix: Counts with callees above 32 bits

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index cd491a1..566cf62 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -984,7 +984,7 @@ void SymbolMap::ComputeTotalCountIncl() {
   // same total_count_incl.
   std::vector<Symbol *> stacksyms;
   for (auto *node : sorted) {
-    unsigned scc_total_count_incl = 0;
+    uint64_t scc_total_count_incl = 0;
     for (auto *sym : node->syms) {
       sym->total_count_incl = sym->total_count;
       stacksyms.push_back(sym);
-- 
2.43.0


From d9edfef4ed14fe56b2d3c2ccadf741953c8fc976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:39 +0000
Subject: [PATCH 58/62] fix: do not look for units in the index of a .dwp file
 that has none

The mask for a table of no slots is all ones, so the lookup read far
outside of the section and crashed.
---
 util/symbolize/dwarf2reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 171d1ac..b50f7b1 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1172,6 +1172,9 @@ void DwpReader::Initialize() {
 
 void DwpReader::ReadDebugSectionsForCU(uint64 dwo_id,
                                        SectionMap* sections) {
+  // A file without units has no slots to look for one in.
+  if (nslots_ == 0)
+    return;
   if (version_ == 1) {
     int slot = LookupCU(dwo_id);
     if (slot == -1) {
-- 
2.43.0


From e9148f45884eb2ce5d663f0d10d8f33a2ae595fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 59/62] fix: do not truncate the merged profile's file for a
 format LLVM no longer writes

LLVM 18 has deprecated the compact binary sample profile format: its writer
reports unsupported_writing_format, but only after the output file has been
opened, so --format=compactbinary destroyed an existing profile before
failing. Refuse it like any other unknown format.
---
 profile_merger.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profile_merger.cc b/profile_merger.cc
index 6948eb2..34dc92d 100644
--- a/profile_merger.cc
+++ b/profile_merger.cc
@@ -226,9 +226,11 @@ int main(int argc, char **argv) {
       writer.reset(new LLVMProfileWriter(llvm::sampleprof::SPF_Text));
     } else if (absl::GetFlag(FLAGS_format) == "binary") {
       writer.reset(new LLVMProfileWriter(llvm::sampleprof::SPF_Binary));
+#if LLVM_VERSION_MAJOR < 18
     } else if (absl::GetFlag(FLAGS_format) == "compactbinary") {
       writer = std::make_unique<LLVMProfileWriter>(
           llvm::sampleprof::SPF_Compact_Binary);
+#endif
     } else if (absl::GetFlag(FLAGS_format) == "extbinary") {
       writer =
           std::make_unique<LLVMProfileWriter>(llvm::sampleprof::SPF_Ext_Binary);
-- 
2.43.0


From e1a3a949da0b3718085b080a76a11bfa18dd0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:00 +0000
Subject: [PATCH 60/62] fix: count functions once in the working sets of a
 profile

ElideSuffixesAndMerge leaves the symbols it has merged into others in
unique_symbols_, from which ComputeWorkingSets took its counts: functions
with elided suffixes (.cold, .llvm.*, .__part.*) were counted once on their
own and once more as a part of the function they belong to.
---
 symbol_map.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 566cf62..d3e6e0d 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1147,12 +1147,14 @@ void SymbolMap::ComputeWorkingSets() {
   Histogram histogram;
   uint64_t total_count = 0;
 
-  // Step 1. Compute histogram.
-  for (const auto &symbol : unique_symbols_) {
-    if (symbol->total_count == 0) {
+  // Step 1. Compute histogram. Symbols without a name have been merged into
+  // others (see ElideSuffixesAndMerge), symbols may have several names.
+  absl::flat_hash_set<const Symbol *> counted;
+  for (const auto &[name, symbol] : map_) {
+    if (symbol->total_count == 0 || !counted.insert(symbol).second) {
       continue;
     }
-    total_count += AddSymbolProfileToHistogram(symbol.get(), &histogram);
+    total_count += AddSymbolProfileToHistogram(symbol, &histogram);
   }
   int bucket_num = 0;
   uint64_t accumulated_count = 0;
-- 
2.43.0


From 819f10c5e925065377d47260353e9e1a0a84071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:35 +0000
Subject: [PATCH 61/62] fix: total the samples of a profile once

Readers that count the records they read (perf_spe) had these counted on top
of the total of the ranges, which raised the threshold of hot functions.
---
 sample_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index 81289b6..c13c3be 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -144,6 +144,8 @@ bool SampleReader::ReadAndSetTotalCount() {
   if (!Read()) {
     return false;
   }
+  // Some readers count the records they read, which is not what is totalled.
+  total_count_ = 0;
   if (!range_count_map_.empty()) {
     for (const auto &[range, count] : range_count_map_) {
       total_count_ += count * (1 + range.second - range.first);
-- 
2.43.0


From 66c45bc72a89a2106bf31e2d515e3ad151830153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:12 +0000
Subject: [PATCH 62/62] fix: initialize the timestamp of every symbol

Copies of inlined symbols had an indeterminate one, which --debug_dump printed.
---
 symbol_map.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbol_map.h b/symbol_map.h
index 9b4d1a2..c0edd9f 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -164,7 +164,8 @@ class Symbol {
         total_count_incl(src->total_count_incl),
         head_count(src->head_count),
         callsites(0),
-        pos_counts() {
+        pos_counts(),
+        timestamp(src->timestamp) {
     info.func_name = new_func_name;
   }
 
@@ -173,7 +174,8 @@ class Symbol {
         total_count_incl(0),
         head_count(0),
         callsites(0),
-        pos_counts() {}
+        pos_counts(),
+        timestamp(0) {}
 
   ~Symbol();
 
-- 
2.43.0

