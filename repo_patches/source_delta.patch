From eb2237829a828d98a664a28cc06ec3c9952d9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 1/4] fix: report HandleTags of RegSetInfoKey with
 KeySetHandleTagsInformation

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d2c8bdb..856cff2 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -268,7 +268,7 @@ def get_registry_set_info_key_extra_details(metadata, event, extra_detail_io, de
             event.details["LastWriteTime"] = read_filetime(extra_detail_io)
         elif event.details["KeySetInformationClass"] == "KeyWow64FlagsInformation":
             event.details["Wow64Flags"] = read_u32(extra_detail_io)
-        elif event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
+        elif event.details["KeySetInformationClass"] == "KeySetHandleTagsInformation":
             event.details["HandleTags"] = read_u32(extra_detail_io)
 
 
-- 
2.43.0


From 5069bd3d75a3729e1d712516eee651b2e2d88f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 2/4] fix: skip the padding before FileId in
 FILE_ID_FULL_DIR_INFORMATION entries

---
 procmon_parser/stream_logs_detail_format.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 856cff2..2c4da22 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -406,6 +406,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
                 continue
             if file_information_class == FileInformationClass.FileIdFullDirectoryInformation:
                 # FILE_ID_FULL_DIR_INFORMATION structure
+                extra_detail_io.seek(4, 1)  # Padding
                 file_id = read_u64(extra_detail_io)
                 event.details[str(i)] = read_utf16(extra_detail_io, file_name_length)
                 continue
-- 
2.43.0


From b55f5e895ac3d0559f262d76c68cc1f1eba59088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 3/4] fix: read the whole service pack field of the header

---
 procmon_parser/stream_logs_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 83f318f..de1ef40 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -42,9 +42,9 @@ class Header(object):
         self.windows_build_number = read_u32(stream)
         self.windows_build_number_after_decimal_point = read_u32(stream)
 
-        self.service_pack_name = read_utf16(stream, 0x32)
+        self.service_pack_name = read_utf16(stream, 0x100)
 
-        stream.seek(0xd6, 1)  # Unknown field
+        stream.seek(8, 1)  # Unknown field
         self.number_of_logical_processors = read_u32(stream)
         self.ram_memory_size = read_u64(stream)
         self.header_size = read_u64(stream)
-- 
2.43.0


From bdf185e3f308ff4bee090088357924b50251dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:16 +0000
Subject: [PATCH 4/4] fix: dump rules whose value has digits that are no 32-bit
 number
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A value like '²' (isdigit() but not a decimal number) or '99999999999'
(over 32 bits) could not be dumped at all.
---
 procmon_parser/configuration_format.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 8ee3e99..3718e04 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -59,7 +59,12 @@ FontStruct = FontStructAdapter(LOGFONTW)
 
 def get_rule_integer_value(column, value):
     if value.isdigit():
-        return int(value)
+        try:
+            int_value = int(value)
+            if int_value <= 0xFFFFFFFF:  # the size of the field
+                return int_value
+        except ValueError:
+            pass  # digits which aren't a decimal number (like superscripts)
 
     if column == Column.ARCHITECTURE:
         return 32 if "32" in value else 64
-- 
2.43.0

