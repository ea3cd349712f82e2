From 64800c9af52735adaffe264a8efbd52b0b249016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 01/85] fix: release PE properties when opening an image fails

---
 src/pe_lib/pe_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7dcff57..6717892 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -35,6 +35,8 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
         file.seekg(old_offset);
         file.exceptions(state);
         file.clear();
+        //Destructor is not called, if constructor throws
+        delete props_;
         //Rethrow
         throw;
     }
-- 
2.43.0


From 9569ea7f9f848600c3399337220d88f830eaeaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 02/85] fix: keep raw data of sections whose virtual size is
 zero

---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 6717892..d7db0cc 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -891,7 +891,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
             //If section raw data size is greater than virtual, fix it
             last_raw_size = s.get_size_of_raw_data();
-            if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
+            if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > s.get_aligned_virtual_size(get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
             //Check virtual and raw section sizes and addresses
-- 
2.43.0


From 4d0c7b9fc14d6a0302d4bf6e9ed035edb11c42a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 03/85] fix: detect overlay behind the raw data that ends last

---
 src/pe_lib/pe_base.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index d7db0cc..7b54a52 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -862,7 +862,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             throw pe_exception("Cannot reach section headers", pe_exception::image_section_headers_not_found);
     }
 
-    uint32_t last_raw_size = 0;
+    uint32_t raw_data_end = 0;
 
     //Read all sections
     for(int i = 0; i < get_number_of_sections(); i++)
@@ -890,7 +890,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             //If section has raw data
 
             //If section raw data size is greater than virtual, fix it
-            last_raw_size = s.get_size_of_raw_data();
+            raw_data_end = std::max<uint32_t>(raw_data_end, s.get_pointer_to_raw_data() + s.get_size_of_raw_data());
             if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > s.get_aligned_virtual_size(get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
@@ -955,7 +955,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     }
 
     //Check if image has overlay in the end of file
-    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(sections_.back().get_pointer_to_raw_data() + last_raw_size);
+    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(raw_data_end);
 
     {
         //Additionally, read data from the beginning of istream to size of headers
-- 
2.43.0


From 3e7fe9aa80a313faab6942ed0e18198dffe441fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 04/85] fix: refuse sections that reach past the 4 GB address
 limit

---
 src/pe_lib/pe_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7b54a52..2f766ca 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -929,7 +929,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         }
 
         //Check virtual address and size of section
-        if(s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
+        if(!pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment()))
+            || s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
             throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
 
         //Save section
-- 
2.43.0


From 6e31f6d9b352dd7a82d09dd142c6fe719c6709a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 05/85] fix: restore stream position and exception mask in
 every case

---
 src/pe_lib/pe_base.cpp     | 16 ++++++++++------
 src/pe_lib/pe_checksum.cpp |  9 +++++----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 2f766ca..ba5db35 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -20,11 +20,11 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
 
     //Save istream state
     std::ios_base::iostate state = file.exceptions();
+    file.exceptions(std::ios::goodbit);
     std::streamoff old_offset = file.tellg();
 
     try
     {
-        file.exceptions(std::ios::goodbit);
         //Read DOS header, PE headers and section data
         read_dos_header(file);
         read_pe(file, read_debug_raw_data, is_file_from_mem);
@@ -32,9 +32,10 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
+        file.clear();
         file.seekg(old_offset);
-        file.exceptions(state);
         file.clear();
+        file.exceptions(state);
         //Destructor is not called, if constructor throws
         delete props_;
         //Rethrow
@@ -42,9 +43,10 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     }
 
     //Restore istream state
+    file.clear();
     file.seekg(old_offset);
-    file.exceptions(state);
     file.clear();
+    file.exceptions(state);
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
@@ -1046,6 +1048,7 @@ pe_type pe_base::get_pe_type(std::istream& file)
 {
     //Save state of the istream
     std::ios_base::iostate state = file.exceptions();
+    file.exceptions(std::ios::goodbit);
     std::streamoff old_offset = file.tellg();
     image_nt_headers32 nt_headers;
     image_dos_header header;
@@ -1053,7 +1056,6 @@ pe_type pe_base::get_pe_type(std::istream& file)
     try
     {
         //Read dos header
-        file.exceptions(std::ios::goodbit);
         read_dos_header(file, header);
 
         //Seek to the NT headers start
@@ -1077,17 +1079,19 @@ pe_type pe_base::get_pe_type(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
+        file.clear();
         file.seekg(old_offset);
         file.clear();
+        file.exceptions(state);
         //Retrhow exception
         throw;
     }
 
     //Restore stream state
-    file.exceptions(state);
+    file.clear();
     file.seekg(old_offset);
     file.clear();
+    file.exceptions(state);
 
     //Determine PE type and return it
     return nt_headers.OptionalHeader.Magic == image_nt_optional_hdr64_magic ? pe_type_64 : pe_type_32;
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 2125780..498f5dd 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -11,6 +11,7 @@ uint32_t calculate_checksum(std::istream& file)
 {
     //Save istream state
     std::ios_base::iostate state = file.exceptions();
+    file.exceptions(std::ios::goodbit);
     std::streamoff old_offset = file.tellg();
 
     //Checksum value
@@ -20,8 +21,6 @@ uint32_t calculate_checksum(std::istream& file)
     {
         image_dos_header header;
 
-        file.exceptions(std::ios::goodbit);
-
         //Read DOS header
         pe_base::read_dos_header(file, header);
 
@@ -64,17 +63,19 @@ uint32_t calculate_checksum(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
+        file.clear();
         file.seekg(old_offset);
         file.clear();
+        file.exceptions(state);
         //Rethrow
         throw;
     }
 
     //Restore istream state
-    file.exceptions(state);
+    file.clear();
     file.seekg(old_offset);
     file.clear();
+    file.exceptions(state);
 
     //Return checksum
     return static_cast<uint32_t>(checksum);    
-- 
2.43.0


From 5fda8c45059400d765b1410bd6622440fa48f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 06/85] fix: keep stream state and detect read errors when
 computing stream entropy

---
 src/pe_lib/entropy.cpp | 43 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/pe_lib/entropy.cpp b/src/pe_lib/entropy.cpp
index 12a3223..939867d 100644
--- a/src/pe_lib/entropy.cpp
+++ b/src/pe_lib/entropy.cpp
@@ -18,22 +18,49 @@ double entropy_calculator::calculate_entropy(std::istream& file)
 {
     uint32_t byte_count[256] = {0}; //Byte count for each of 255 bytes
 
-    if(file.bad())
+    if(!file.good())
         throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
+    //Save istream state
+    std::ios_base::iostate state = file.exceptions();
+    file.exceptions(std::ios::goodbit);
     std::streamoff pos = file.tellg();
+    std::streamoff length = 0;
 
-    std::streamoff length = pe_utils::get_file_size(file);
-    length -= file.tellg();
+    try
+    {
+        length = pe_utils::get_file_size(file);
+        length -= file.tellg();
 
-    if(!length) //Don't calculate entropy for empty buffers
-        throw pe_exception("Data length is zero", pe_exception::data_is_empty);
+        if(!length) //Don't calculate entropy for empty buffers
+            throw pe_exception("Data length is zero", pe_exception::data_is_empty);
 
-    //Count bytes
-    for(std::streamoff i = 0; i != length; ++i)
-        ++byte_count[static_cast<unsigned char>(file.get())];
+        //Count bytes
+        for(std::streamoff i = 0; i < length; ++i)
+        {
+            const int c = file.get();
+            if(!file.good())
+                throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
+
+            ++byte_count[static_cast<unsigned char>(c)];
+        }
+    }
+    catch(const std::exception&)
+    {
+        //If something went wrong, restore istream state
+        file.clear();
+        file.seekg(pos);
+        file.clear();
+        file.exceptions(state);
+        //Rethrow
+        throw;
+    }
 
+    //Restore istream state
+    file.clear();
     file.seekg(pos);
+    file.clear();
+    file.exceptions(state);
 
     return calculate_entropy(byte_count, length);
 }
-- 
2.43.0


From fd35ca4b6cc565a896510e8f7bd829af9a6e6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 07/85] fix: treat failed stream operations as errors when
 opening and summing images

---
 src/pe_lib/pe_base.cpp     | 18 +++++++++---------
 src/pe_lib/pe_checksum.cpp |  4 ++++
 src/pe_lib/utils.cpp       |  3 +++
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index ba5db35..e53bdbf 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -763,12 +763,12 @@ const char* pe_base::section_data_from_rva(uint32_t rva, section_data_type datat
 void pe_base::read_dos_header(std::istream& file, image_dos_header& header)
 {
     //Check istream flags
-    if(file.bad() || file.eof())
+    if(file.fail() || file.eof())
         throw pe_exception("PE file stream is bad or closed.", pe_exception::bad_pe_file);
 
     //Read DOS header and check istream
     file.read(reinterpret_cast<char*>(&header), sizeof(image_dos_header));
-    if(file.bad() || file.eof())
+    if(file.fail() || file.eof())
         throw pe_exception("Unable to read IMAGE_DOS_HEADER", pe_exception::bad_dos_header);
 
     //Check DOS header magic
@@ -799,7 +799,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
     //Read NT headers
     file.read(get_nt_headers_ptr(), get_sizeof_nt_header() - sizeof(image_data_directory) * image_numberof_directory_entries);
-    if(file.bad() || file.eof())
+    if(file.fail() || file.eof())
         throw pe_exception("Error reading IMAGE_NT_HEADERS", pe_exception::error_reading_image_nt_headers);
 
     //Check PE signature
@@ -814,7 +814,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     {
         //Read data directory headers, if any
         file.read(get_nt_headers_ptr() + (get_sizeof_nt_header() - sizeof(image_data_directory) * image_numberof_directory_entries), sizeof(image_data_directory) * get_number_of_rvas_and_sizes());
-        if(file.bad() || file.eof())
+        if(file.fail() || file.eof())
             throw pe_exception("Error reading DATA_DIRECTORY headers", pe_exception::error_reading_data_directories);
     }
 
@@ -848,7 +848,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         rich_overlay_.resize(dos_header_.e_lfanew - sizeof(image_dos_header));
         file.seekg(sizeof(image_dos_header));
         file.read(&rich_overlay_[0], dos_header_.e_lfanew - sizeof(image_dos_header));
-        if(file.bad() || file.eof())
+        if(file.fail() || file.eof())
             throw pe_exception("Error reading 'Rich' & 'DOS stub' overlay", pe_exception::error_reading_overlay);
     }
 
@@ -872,7 +872,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         section s;
         //Read section header
         file.read(reinterpret_cast<char*>(&s.get_raw_header()), sizeof(image_section_header));
-        if(file.bad() || file.eof())
+        if(file.fail() || file.eof())
             throw pe_exception("Error reading section header", pe_exception::error_reading_section_header);
 
         //Save next section header position
@@ -979,7 +979,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
         full_headers_data_.resize(size_of_headers);
         file.read(&full_headers_data_[0], size_of_headers);
-        if(file.bad() || file.eof())
+        if(file.fail() || file.eof())
             throw pe_exception("Error reading file", pe_exception::error_reading_file);
     }
 
@@ -1011,7 +1011,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
                     file.read(&data[0], directory.SizeOfData);
-                    if(file.bad() || file.eof())
+                    if(file.fail() || file.eof())
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
 
                     debug_data_.insert(std::make_pair(directory.PointerToRawData, data));
@@ -1065,7 +1065,7 @@ pe_type pe_base::get_pe_type(std::istream& file)
 
         //Read NT headers (we're using 32-bit version, because there's no significant differencies between 32 and 64 bit version structures)
         file.read(reinterpret_cast<char*>(&nt_headers), sizeof(image_nt_headers32) - sizeof(image_data_directory) * image_numberof_directory_entries);
-        if(file.bad() || file.eof())
+        if(file.fail() || file.eof())
             throw pe_exception("Error reading IMAGE_NT_HEADERS", pe_exception::error_reading_image_nt_headers);
 
         //Check NT headers signature
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 498f5dd..c11334d 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "pe_checksum.h"
 #include "pe_structures.h"
 #include "pe_base.h"
@@ -43,6 +44,9 @@ uint32_t calculate_checksum(std::istream& file)
 
             //Read DWORD from file
             file.read(reinterpret_cast<char*>(&dw), sizeof(dw));
+            if(file.bad() || file.gcount() != std::min<std::streamoff>(sizeof(dw), filesize - i))
+                throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
             //Skip "CheckSum" DWORD
             if(i == pe_checksum_pos)
                 continue;
diff --git a/src/pe_lib/utils.cpp b/src/pe_lib/utils.cpp
index 5ee8117..03586f9 100644
--- a/src/pe_lib/utils.cpp
+++ b/src/pe_lib/utils.cpp
@@ -19,6 +19,9 @@ std::streamoff pe_utils::get_file_size(std::istream& file)
     std::streamoff filesize = file.tellg();
     //Set old istream offset
     file.seekg(old_offset);
+    if(file.fail() || filesize < 0)
+        throw pe_exception("Unable to get stream size", pe_exception::stream_is_bad);
+
     return filesize;
 }
 
-- 
2.43.0


From 94278d0ea2cde7589751deaaeed3202d8e452662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 08/85] fix: zero is not a power of two

---
 src/pe_lib/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/utils.h b/src/pe_lib/utils.h
index 98b1657..fd3046a 100644
--- a/src/pe_lib/utils.h
+++ b/src/pe_lib/utils.h
@@ -35,7 +35,7 @@ public:
     template<typename T>
     static inline bool is_power_of_2(T x)
     {
-        return !(x & (x - 1));
+        return x && !(x & (x - 1));
     }
 
     //Helper function to align number down
-- 
2.43.0


From efe66d226cb4de0b79e5b3bb768b30328c986d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 09/85] fix: decode only complete Rich records and stay inside
 the stub

---
 src/pe_lib/pe_rich_data.cpp | 78 +++++++++++--------------------------
 1 file changed, 23 insertions(+), 55 deletions(-)

diff --git a/src/pe_lib/pe_rich_data.cpp b/src/pe_lib/pe_rich_data.cpp
index 807915c..f6982ca 100644
--- a/src/pe_lib/pe_rich_data.cpp
+++ b/src/pe_lib/pe_rich_data.cpp
@@ -47,81 +47,49 @@ const rich_data_list get_rich_data(const pe_base& pe)
 
     const std::string& rich_overlay = pe.get_stub_overlay();
 
-    //If there's no rich overlay, return empty vector
-    if(rich_overlay.size() < sizeof(uint32_t))
+    //"Rich" word and XOR key must fit to overlay
+    if(rich_overlay.size() < sizeof(uint32_t) * 2)
         return ret;
 
-    //True if rich data was found
-    bool found = false;
-
     //Rich overlay ID ("Rich" word)
     static const uint32_t rich_overlay_id = 0x68636952;
+    //Size of rich data header: "DanS" signature and three padding DWORDs
+    static const size_t rich_header_size = sizeof(uint32_t) * 4;
+    //Size of single rich data record
+    static const size_t rich_record_size = sizeof(uint32_t) * 2;
 
-    //Search for rich data overlay ID
-    const char* begin = &rich_overlay[0];
-    const char* end = begin + rich_overlay.length();
-    for(; begin != end; ++begin)
-    {
-        if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
-        {
-            found = true; //We've found it!
-            break;
-        }
-    }
+    const char* begin = rich_overlay.data();
 
-    //If we found it
-    if(found)
+    //Search for rich data overlay ID
+    for(size_t rich_pos = 0; rich_pos <= rich_overlay.size() - sizeof(uint32_t) * 2; ++rich_pos)
     {
-        //Check remaining length
-        if(static_cast<size_t>(end - begin) < sizeof(uint32_t))
-            return ret;
+        if(*reinterpret_cast<const uint32_t*>(begin + rich_pos) != rich_overlay_id)
+            continue;
 
         //The XOR key is after "Rich" word, we should get it
-        uint32_t xorkey = *reinterpret_cast<const uint32_t*>(begin + sizeof(uint32_t));
+        uint32_t xorkey = *reinterpret_cast<const uint32_t*>(begin + rich_pos + sizeof(uint32_t));
 
-        //True if rich data was found
-        found = false;
-
-        //Second search for signature "DanS"
-        begin = &rich_overlay[0];
-        for(; begin != end; ++begin)
+        //Search for signature "DanS" before "Rich" word
+        for(size_t dans_pos = 0; dans_pos + rich_header_size <= rich_pos; ++dans_pos)
         {
-            if((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) == 0x536e6144) //"DanS"
-            {
-                found = true;
-                break;
-            }
-        }
+            if((*reinterpret_cast<const uint32_t*>(begin + dans_pos) ^ xorkey) != 0x536e6144 //"DanS"
+                || (rich_pos - dans_pos) % rich_record_size != 0)
+                continue;
 
-        //If second signature is found
-        if(found)
-        {
-            begin += sizeof(uint32_t) * 3;
             //List all rich data structures
-            while(begin < end)
+            for(size_t pos = dans_pos + rich_header_size; pos < rich_pos; pos += rich_record_size)
             {
-                begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
-                //Check for rich overlay data end ("Rich" word reached)
-                if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
-                    break;
-
                 //Create rich_data structure
                 rich_data data;
-                data.set_number((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) >> 16);
-                data.set_version((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) & 0xFFFF);
-
-                begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
-                data.set_times(*reinterpret_cast<const uint32_t*>(begin) ^ xorkey);
+                data.set_number((*reinterpret_cast<const uint32_t*>(begin + pos) ^ xorkey) >> 16);
+                data.set_version((*reinterpret_cast<const uint32_t*>(begin + pos) ^ xorkey) & 0xFFFF);
+                data.set_times(*reinterpret_cast<const uint32_t*>(begin + pos + sizeof(uint32_t)) ^ xorkey);
 
                 //Save rich data structure
                 ret.push_back(data);
             }
+
+            return ret;
         }
     }
 
-- 
2.43.0


From 7a938f3ecdd70549d87f829f5b9e541ec7b1214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 10/85] fix: remap section virtual data when its size has
 changed

---
 src/pe_lib/pe_section.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_section.cpp b/src/pe_lib/pe_section.cpp
index bd5079d..b8c5166 100644
--- a/src/pe_lib/pe_section.cpp
+++ b/src/pe_lib/pe_section.cpp
@@ -146,6 +146,10 @@ std::string& section::get_virtual_data(uint32_t section_alignment)
 void section::map_virtual(uint32_t section_alignment) const
 {
     uint32_t aligned_virtual_size = get_aligned_virtual_size(section_alignment);
+    //Virtual size or alignment could have been changed since virtual data was mapped
+    if(old_size_ != static_cast<size_t>(-1) && aligned_virtual_size != raw_data_.length())
+        unmap_virtual();
+
     if(old_size_ == static_cast<size_t>(-1) && aligned_virtual_size && aligned_virtual_size > raw_data_.length())
     {
         old_size_ = raw_data_.length();
-- 
2.43.0


From ee8f7451061b4869ce0bbfe64f9552b19d839740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 11/85] fix: write exactly the raw data of each section at its
 file position

---
 src/pe_lib/pe_rebuilder.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index eb9888d..2a7d2b1 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "pe_rebuilder.h"
 #include "pe_base.h"
 #include "pe_structures.h"
@@ -153,19 +154,38 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
             pe.get_directory_size(image_directory_entry_bound_import));
     }
 
+    //Size of data which has been already written
+    size_t wpos = (strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header)) + pe.get_sizeof_nt_header()
+        + pe_utils::align_up(pe.get_stub_overlay().size(), sizeof(uint32_t))
+        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes())
+        + sections.size() * sizeof(image_section_header);
+
+    if(save_bound_import && pe.has_bound_import())
+        wpos += pe.get_directory_size(image_directory_entry_bound_import);
+
     //Write section data finally
     for(section_list::const_iterator it = sections.begin(); it != sections.end(); ++it)
     {
         const section& s = *it;
 
-        std::streamoff wpos = out.tellp();
+        //Sections without raw data have no place in file
+        if(!s.get_size_of_raw_data())
+            continue;
 
         //Fill unused overlay data between sections with null bytes
-        for(unsigned int i = 0; i < s.get_pointer_to_raw_data() - wpos; i++)
+        for(; wpos < s.get_pointer_to_raw_data(); ++wpos)
             out.put(0);
 
         //Write raw section data
-        out.write(s.get_raw_data().data(), s.get_size_of_raw_data());
+        const std::string& raw_data = s.get_raw_data();
+        size_t raw_size = std::min<size_t>(raw_data.size(), s.get_size_of_raw_data());
+        out.write(raw_data.data(), raw_size);
+
+        //Raw data can be shorter than its aligned size, fill the rest with null bytes
+        for(; raw_size < s.get_size_of_raw_data(); ++raw_size)
+            out.put(0);
+
+        wpos += raw_size;
     }
 }
 }
-- 
2.43.0


From 850eeade232d94dec7791034dd1c0347dadefcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 12/85] fix: keep bound import position in memory when writing
 images

---
 src/pe_lib/pe_rebuilder.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 2a7d2b1..0dcdbfa 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -40,13 +40,10 @@ void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header
         - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes())
         + sections.size() * sizeof(image_section_header);
 
+    const size_t bound_import_position = ptr_to_section_data;
     if(save_bound_import && pe.has_bound_import())
-    {
-        //It will be aligned to DWORD, because we're aligning to DWORD everything above it
-        pe.set_directory_rva(image_directory_entry_bound_import, static_cast<uint32_t>(ptr_to_section_data));
-        ptr_to_section_data += pe.get_directory_size(image_directory_entry_bound_import);    
-    }
-    
+        ptr_to_section_data += pe.get_directory_size(image_directory_entry_bound_import);
+
     ptr_to_section_data = pe_utils::align_up(ptr_to_section_data, pe.get_file_alignment());
 
     //Set size of headers and size of optional header
@@ -61,6 +58,12 @@ void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header
         pe.set_size_of_headers(static_cast<uint32_t>(ptr_to_section_data));
     }
 
+    if(save_bound_import && pe.has_bound_import())
+    {
+        //It will be aligned to DWORD, because we're aligning to DWORD everything above it
+        pe.set_directory_rva(image_directory_entry_bound_import, static_cast<uint32_t>(bound_import_position));
+    }
+
     //Set number of sections in PE header
     pe.update_number_of_sections();
 
@@ -102,7 +105,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     out.clear();
     
     uint32_t original_bound_import_rva = pe.has_bound_import() ? pe.get_directory_rva(image_directory_entry_bound_import) : 0;
-    if(original_bound_import_rva && original_bound_import_rva > pe.get_size_of_headers())
+    if(original_bound_import_rva && original_bound_import_rva >= pe.get_size_of_headers())
     {
         //No need to do anything with bound import directory
         //if it is placed inside of any section, not headers
@@ -152,6 +155,9 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         out.write(pe.section_data_from_rva(original_bound_import_rva, section_data_raw, true),
             pe.get_directory_size(image_directory_entry_bound_import));
+
+        //Headers data of the image in memory has not been moved
+        pe.set_directory_rva(image_directory_entry_bound_import, original_bound_import_rva);
     }
 
     //Size of data which has been already written
-- 
2.43.0


From 2188c650a57fb0630af34df340e92cff4499d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 13/85] fix: find bound imports in the retained headers data
 when writing again

---
 src/pe_lib/pe_rebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 0dcdbfa..33ca640 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -105,7 +105,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     out.clear();
     
     uint32_t original_bound_import_rva = pe.has_bound_import() ? pe.get_directory_rva(image_directory_entry_bound_import) : 0;
-    if(original_bound_import_rva && original_bound_import_rva >= pe.get_size_of_headers())
+    if(original_bound_import_rva && original_bound_import_rva >= pe.get_full_headers_data().length())
     {
         //No need to do anything with bound import directory
         //if it is placed inside of any section, not headers
-- 
2.43.0


From 0f6598d0c5d8fcad8c00b7de84ed48d304b8fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 14/85] fix: refuse section sizes that leave the address space
 or overlap the next section

---
 src/pe_lib/pe_base.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index e53bdbf..1d50830 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -215,6 +215,10 @@ void pe_base::realign_section(uint32_t index)
 
     if(it == sections_.end() - 1) //If we're realigning the last section
     {
+        //Size of raw data is used instead of zero virtual size, so keep it
+        if(!s.get_virtual_size())
+            s.set_virtual_size(s.get_size_of_raw_data());
+
         //We can strip ending null bytes
         s.set_size_of_raw_data(static_cast<uint32_t>(s.get_raw_data().length() - strip));
         s.get_raw_data().resize(s.get_raw_data().length() - strip, 0);
@@ -343,6 +347,10 @@ void pe_base::set_section_virtual_size(section& s, uint32_t vsize)
     if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't change virtual size of any section, except last one", pe_exception::error_changing_section_virtual_size);
 
+    //Section must stay inside of address space
+    if(vsize > pe_utils::two_gb || !pe_utils::is_sum_safe(s.get_virtual_address(), pe_utils::align_up(vsize, get_section_alignment())))
+        throw pe_exception("Section virtual size is too big", pe_exception::error_changing_section_virtual_size);
+
     //If we're setting virtual size to zero
     if(vsize == 0)
     {
@@ -373,6 +381,10 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
     if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't expand any section, except last one", pe_exception::error_expanding_section);
 
+    //Section must stay inside of address space
+    if(needed_size > pe_utils::two_gb || !pe_utils::is_sum_safe(needed_rva, needed_size))
+        throw pe_exception("Can't expand section, needed size is too big", pe_exception::error_expanding_section);
+
     //Check if we should expand our section
     if(expand == expand_section_raw && section_data_length_from_rva(s, needed_rva, section_data_raw) < needed_size)
     {
@@ -440,6 +452,10 @@ void pe_base::set_machine(uint16_t machine)
 //Prepares section before attaching it
 void pe_base::prepare_section(section& s)
 {
+    //Section must fit into address space
+    if(s.get_virtual_size() > pe_utils::two_gb || s.get_raw_data().length() > pe_utils::two_gb)
+        throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
+
     //Calculate its size of raw data
     s.set_size_of_raw_data(static_cast<uint32_t>(pe_utils::align_up(s.get_raw_data().length(), get_file_alignment())));
 
@@ -475,6 +491,11 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     {
         s.set_virtual_address(pe_utils::align_up(sections_.back().get_virtual_address() + sections_.back().get_aligned_virtual_size(get_section_alignment()), get_section_alignment()));
 
+        //Section must fit into address space behind the last one
+        if(s.get_virtual_address() < sections_.back().get_virtual_address()
+            || !pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment())))
+            throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
+
         //We should align last section raw size, if it wasn't aligned
         section& last = sections_.back();
 
@@ -1570,6 +1591,17 @@ void pe_base::realign_file(uint32_t new_file_alignment)
 //Helper function to recalculate RAW and virtual section sizes and strip it, if necessary
 void pe_base::recalculate_section_sizes(section& s, bool auto_strip)
 {
+    //Only the last section can change the space it takes, any other would overlap the next one or leave a gap
+    if(section_attached(s) && &s != &sections_.back())
+    {
+        if(pe_utils::align_up(s.get_raw_data().length(), get_file_alignment()) > s.get_aligned_virtual_size(get_section_alignment()))
+            throw pe_exception("Can't expand any section, except last one", pe_exception::error_expanding_section);
+
+        //Size of raw data is used instead of zero virtual size
+        if(!s.get_virtual_size())
+            s.set_virtual_size(s.get_size_of_raw_data());
+    }
+
     prepare_section(s); //Recalculate section raw addresses
 
     //Strip RAW size of section, if it is the last one
-- 
2.43.0


From 303323f1f5074e4e7207af33d59bdd0f15155ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 15/85] fix: refuse address conversions that wrap or name no
 byte of the file

---
 src/pe_lib/pe_base.cpp               |  7 +++++++
 src/pe_lib/pe_properties_generic.cpp | 12 ++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 1d50830..572b815 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1387,6 +1387,10 @@ uint32_t pe_base::rva_to_file_offset(uint32_t rva) const
         return rva;
 
     const section& s = section_from_rva(rva);
+    //Bytes which are not covered by raw data have no place in file
+    if(rva - s.get_virtual_address() >= s.get_size_of_raw_data())
+        throw pe_exception("RVA has no corresponding file offset", pe_exception::rva_not_exists);
+
     return s.get_pointer_to_raw_data() + rva - s.get_virtual_address();
 }
 
@@ -1424,6 +1428,9 @@ section_list::iterator pe_base::file_offset_to_section(uint32_t offset)
 //RVA from section raw data offset
 uint32_t pe_base::rva_from_section_offset(const section& s, uint32_t raw_offset_from_section_start)
 {
+    if(!pe_utils::is_sum_safe(s.get_virtual_address(), raw_offset_from_section_start))
+        throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
+
     return s.get_virtual_address() + raw_offset_from_section_start;
 }
 
diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 40abf8c..007d4b5 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -487,7 +487,7 @@ uint16_t pe_properties_generic<PEClassType>::get_major_subsystem_version() const
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint32_t va, bool bound_check) const
 {
-    if(bound_check && static_cast<uint64_t>(va) - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword)
+    if(bound_check && (va < nt_headers_.OptionalHeader.ImageBase || static_cast<uint64_t>(va) - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword))
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(va - nt_headers_.OptionalHeader.ImageBase);
@@ -497,7 +497,7 @@ uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint32_t va, bool bound_c
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint64_t va, bool bound_check) const
 {
-    if(bound_check && va - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword)
+    if(bound_check && (va < nt_headers_.OptionalHeader.ImageBase || va - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword))
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(va - nt_headers_.OptionalHeader.ImageBase);
@@ -507,7 +507,7 @@ uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint64_t va, bool bound_c
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::rva_to_va_32(uint32_t rva) const
 {
-    if(!pe_utils::is_sum_safe(rva, static_cast<uint32_t>(nt_headers_.OptionalHeader.ImageBase)))
+    if(rva_to_va_64(rva) > pe_utils::max_dword)
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(rva + nt_headers_.OptionalHeader.ImageBase);
@@ -517,7 +517,11 @@ uint32_t pe_properties_generic<PEClassType>::rva_to_va_32(uint32_t rva) const
 template<typename PEClassType>
 uint64_t pe_properties_generic<PEClassType>::rva_to_va_64(uint32_t rva) const
 {
-    return static_cast<uint64_t>(rva) + nt_headers_.OptionalHeader.ImageBase;
+    uint64_t va = static_cast<uint64_t>(rva) + nt_headers_.OptionalHeader.ImageBase;
+    if(va < rva)
+        throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
+
+    return va;
 }
 
 //Returns number of sections
-- 
2.43.0


From 1b67b2f29e1f3df617df66ca0b6f5ecb079a80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 16/85] fix: refuse pointers outside raw data, read the last
 value of the headers

---
 src/pe_lib/pe_base.cpp | 22 ++++++++++++++++++----
 src/pe_lib/pe_base.h   |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 572b815..955fdcd 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -651,6 +651,10 @@ char* pe_base::section_data_from_rva(section& s, uint32_t rva)
         if(s.get_raw_data().empty())
             throw pe_exception("Section raw data is empty and cannot be changed", pe_exception::section_is_empty);
 
+        //RVA can be inside virtual data, but outside raw data
+        if(rva - s.get_virtual_address() >= s.get_raw_data().length())
+            throw pe_exception("RVA not found inside section raw data", pe_exception::rva_not_exists);
+
         return &s.get_raw_data()[rva - s.get_virtual_address()];
     }
 
@@ -662,7 +666,14 @@ const char* pe_base::section_data_from_rva(const section& s, uint32_t rva, secti
 {
     //Check if RVA is inside section "s"
     if(rva >= s.get_virtual_address() && rva < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
-        return (datatype == section_data_raw ? s.get_raw_data().data() : s.get_virtual_data(get_section_alignment()).c_str()) + rva - s.get_virtual_address();
+    {
+        const std::string& data = datatype == section_data_raw ? s.get_raw_data() : s.get_virtual_data(get_section_alignment());
+        //RVA can be inside virtual data, but outside raw data
+        if(rva - s.get_virtual_address() >= data.length())
+            throw pe_exception("RVA not found inside section raw data", pe_exception::rva_not_exists);
+
+        return data.data() + (rva - s.get_virtual_address());
+    }
 
     throw pe_exception("RVA not found inside section", pe_exception::rva_not_exists);
 }
@@ -730,7 +741,7 @@ uint32_t pe_base::section_data_length_from_rva(const section& s, uint32_t rva_in
     if(rva_inside >= s.get_virtual_address() && rva_inside < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
     {
         //Calculate remaining length of section data from "rva" address
-        int32_t length = static_cast<int32_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()))
+        int64_t length = static_cast<int64_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()))
             + s.get_virtual_address() - rva_inside;
 
         if(length < 0)
@@ -766,6 +777,10 @@ char* pe_base::section_data_from_rva(uint32_t rva, bool include_headers)
     if(s.get_raw_data().empty())
         throw pe_exception("Section raw data is empty and cannot be changed", pe_exception::section_is_empty);
 
+    //RVA can be inside virtual data, but outside raw data
+    if(rva - s.get_virtual_address() >= s.get_raw_data().length())
+        throw pe_exception("RVA not found inside section raw data", pe_exception::rva_not_exists);
+
     return &s.get_raw_data()[rva - s.get_virtual_address()];
 }
 
@@ -776,8 +791,7 @@ const char* pe_base::section_data_from_rva(uint32_t rva, section_data_type datat
     if(include_headers && rva < full_headers_data_.length())
         return &full_headers_data_[rva];
 
-    const section& s = section_from_rva(rva);
-    return (datatype == section_data_raw ? s.get_raw_data().data() : s.get_virtual_data(get_section_alignment()).c_str()) + rva - s.get_virtual_address();
+    return section_data_from_rva(section_from_rva(rva), rva, datatype);
 }
 
 //Reads DOS headers from istream
diff --git a/src/pe_lib/pe_base.h b/src/pe_lib/pe_base.h
index 5642147..b340824 100644
--- a/src/pe_lib/pe_base.h
+++ b/src/pe_lib/pe_base.h
@@ -388,7 +388,7 @@ public: //IMAGE SECTIONS
     T section_data_from_rva(uint32_t rva, section_data_type datatype = section_data_raw, bool include_headers = false) const
     {
         //if RVA is inside of headers and we're searching them too...
-        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) < full_headers_data_.length()))
+        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) <= full_headers_data_.length()))
             return *reinterpret_cast<const T*>(&full_headers_data_[rva]);
 
         const section& s = section_from_rva(rva);
-- 
2.43.0


From c869a67e8f2a8bfd08b1956301e10064e914abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 17/85] fix: directory lookups in images without data
 directories read outside the table

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 007d4b5..d5e82d8 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -44,7 +44,7 @@ pe_properties_generic<PEClassType>::~pe_properties_generic()
 template<typename PEClassType>
 bool pe_properties_generic<PEClassType>::directory_exists(uint32_t id) const
 {
-    return (nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1) >= id &&
+    return nt_headers_.OptionalHeader.NumberOfRvaAndSizes > id &&
         nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;
 }
 
-- 
2.43.0


From 62bd4c3504a5435807cc40440f5d83704a7e9161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 18/85] fix: data directory count could be set beyond the
 directory table

---
 src/pe_lib/pe_properties_generic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index d5e82d8..df4d95b 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -324,7 +324,8 @@ uint32_t pe_properties_generic<PEClassType>::get_number_of_rvas_and_sizes() cons
 template<typename PEClassType>
 void pe_properties_generic<PEClassType>::set_number_of_rvas_and_sizes(uint32_t number)
 {
-    nt_headers_.OptionalHeader.NumberOfRvaAndSizes = number;
+    //The table has room for image_numberof_directory_entries entries only
+    nt_headers_.OptionalHeader.NumberOfRvaAndSizes = number > image_numberof_directory_entries ? image_numberof_directory_entries : number;
 }
 
 //Returns PE characteristics
-- 
2.43.0


From 1265ca2f2fa4bb236983387f37cbc3e009616abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 19/85] fix: stripping data directories left one less than the
 requested minimum

---
 src/pe_lib/pe_properties_generic.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index df4d95b..dd1cb1c 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -123,11 +123,12 @@ uint32_t pe_properties_generic<PEClassType>::strip_data_directories(uint32_t min
     //Enumerate all data directories from the end
     for(; i >= 0; i--)
     {
-        //If directory exists, break
-        if(nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress && (static_cast<uint32_t>(i) != image_directory_entry_iat || !strip_iat_directory))
+        //Keep at least min_count directories
+        if(static_cast<uint32_t>(i) < min_count)
             break;
 
-        if(i <= static_cast<int>(min_count) - 2)
+        //If directory exists, break
+        if(nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress && (static_cast<uint32_t>(i) != image_directory_entry_iat || !strip_iat_directory))
             break;
     }
 
-- 
2.43.0


From a627b4f421964fb9db35aa654e8bf2af24889021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 20/85] fix: assigning an image to itself used deleted
 properties

---
 src/pe_lib/pe_base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 955fdcd..6ea5594 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -92,6 +92,9 @@ pe_base::pe_base(const pe_base& pe)
 
 pe_base& pe_base::operator=(const pe_base& pe)
 {
+    //Copied before anything is released: the image may be assigned to itself
+    std::unique_ptr<pe_properties> props(pe.props_->duplicate());
+
     dos_header_ = pe.dos_header_;
     rich_overlay_ = pe.rich_overlay_;
     sections_ = pe.sections_;
@@ -99,8 +102,7 @@ pe_base& pe_base::operator=(const pe_base& pe)
     full_headers_data_ = pe.full_headers_data_;
     debug_data_ = pe.debug_data_;
     delete props_;
-    props_ = 0;
-    props_ = pe.props_->duplicate().release();
+    props_ = props.release();
 
     return *this;
 }
-- 
2.43.0


From dd18b83afa69664bb4de8a531e4c5206f83fb186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 21/85] fix: assigning debug information to itself lost its
 data

---
 src/pe_lib/pe_debug.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5dc2f6e..4c505fa 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -138,6 +138,10 @@ debug_info::debug_info(const debug_info& info)
 //Copy assignment operator
 debug_info& debug_info::operator=(const debug_info& info)
 {
+    //Copying releases own data first, nothing to do for assignment to itself
+    if(this == &info)
+        return *this;
+
     copy_advanced_info(info);
 
     characteristics_ = info.characteristics_;
-- 
2.43.0


From 48adbc73700d895b91c57a4853e3cdaf621e1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 22/85] fix: resource directory entries released data before
 copying it from their own tree

---
 src/pe_lib/pe_resources.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4dfec8..a5ac3e3 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,21 +68,14 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
-    release();
-
-    id_ = other.id_;
-    name_ = other.name_;
-    includes_data_ = other.includes_data_;
-    named_ = other.named_;
+    //Copy first: other can be this entry or a part of the tree it owns
+    resource_directory_entry copy(other);
 
-    //If other union'ed pointer is not zero
-    if(other.ptr_.data_)
-    {
-        if(other.includes_data())
-            ptr_.data_ = new resource_data_entry(*other.ptr_.data_);
-        else
-            ptr_.dir_ = new resource_directory(*other.ptr_.dir_);
-    }
+    std::swap(id_, copy.id_);
+    std::swap(name_, copy.name_);
+    std::swap(includes_data_, copy.includes_data_);
+    std::swap(named_, copy.named_);
+    std::swap(ptr_, copy.ptr_);
 
     return *this;
 }
@@ -189,16 +182,20 @@ void resource_directory_entry::set_id(uint32_t id)
 //Adds resource_data_entry
 void resource_directory_entry::add_data_entry(const resource_data_entry& entry)
 {
+    //Copy first: entry can be owned by this directory entry
+    resource_data_entry* data = new resource_data_entry(entry);
     release();
-    ptr_.data_ = new resource_data_entry(entry);
+    ptr_.data_ = data;
     includes_data_ = true;
 }
 
 //Adds resource_directory
 void resource_directory_entry::add_resource_directory(const resource_directory& dir)
 {
+    //Copy first: directory can be owned by this directory entry
+    resource_directory* directory = new resource_directory(dir);
     release();
-    ptr_.dir_ = new resource_directory(dir);
+    ptr_.dir_ = directory;
     includes_data_ = false;
 }
 
-- 
2.43.0


From 905c6921688c070b155999f5c86fe7410190e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 23/85] fix: imports by ordinal overwrote each other without
 original IAT

---
 src/pe_lib/pe_imports.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 51b5b3f..7cdd434 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -656,6 +656,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         else
                         {
                             memcpy(&raw_data[current_pos_for_iat], &thunk_value, sizeof(thunk_value));
+                            current_pos_for_iat += sizeof(thunk_value);
                         }
                     }
                 }
-- 
2.43.0


From 305dc8a148bd585dc98085d9f0d052d69883d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 24/85] fix: imports were lost when filling missing original
 IATs with original IAT building disabled

---
 src/pe_lib/pe_imports.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7cdd434..7a3bd95 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -486,7 +486,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         //If we should save IAT for current import descriptor
         bool save_iats_for_this_descriptor = import_settings.save_iat_and_original_iat_rvas() && (*it).get_rva_to_iat() != 0;
         //If we should write original IAT
-        bool write_original_iat = (!save_iats_for_this_descriptor && import_settings.build_original_iat()) || import_settings.fill_missing_original_iats();
+        bool write_original_iat = import_settings.build_original_iat() && (!save_iats_for_this_descriptor || import_settings.fill_missing_original_iats());
 
         //If we should rewrite saved original IAT for current import descriptor (without changing its position)
         bool rewrite_saved_original_iat = save_iats_for_this_descriptor && import_settings.rewrite_iat_and_original_iat_contents() && import_settings.build_original_iat();
-- 
2.43.0


From e938cc3fc15b1010e4be6fdab82d6051ef6c1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 25/85] fix: rebuilding imports cut off section data behind
 them

---
 src/pe_lib/pe_imports.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7a3bd95..e654c02 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -461,6 +461,9 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     std::string& raw_data = import_section.get_raw_data();
 
+    //Data that was in the section before, must not be stripped
+    const std::string::size_type old_raw_length = raw_data.length();
+
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
         raw_data.resize(needed_size + import_settings.get_offset_from_section_start()); //Expand section raw data
@@ -734,7 +737,10 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     //Strip data a little, if we saved some place
     //We're allocating more space than needed, if present original IAT and IAT are saved
-    raw_data.resize(current_pos_for_original_iat);
+    if(current_pos_for_original_iat > old_raw_length)
+        raw_data.resize(current_pos_for_original_iat);
+    else
+        raw_data.resize(old_raw_length);
 
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
-- 
2.43.0


From 589081322583a89e5cbfcb4edd39d96b3885038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 26/85] fix: imports without IAT value ended the import address
 table

---
 src/pe_lib/pe_imports.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index e654c02..3f268c8 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -555,6 +555,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //We're creating original IATs - so we can write to IAT saved VA (because IMAGE_IMPORT_BY_NAME will be read
                         //by PE loader from original IAT)
                         typename PEClassType::BaseSize iat_value = static_cast<typename PEClassType::BaseSize>((*f).get_iat_va());
+                        if(!iat_value) //Zero thunk would end IAT, write the same value as to original IAT
+                            iat_value = rva_of_named_import;
 
                         if(rewrite_saved_iat)
                         {
@@ -629,6 +631,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //We're creating original IATs - so we can wtire to IAT saved VA (because ordinal will be read
                         //by PE loader from original IAT)
                         typename PEClassType::BaseSize iat_value = static_cast<typename PEClassType::BaseSize>((*f).get_iat_va());
+                        if(!iat_value) //Zero thunk would end IAT, write the same value as to original IAT
+                            iat_value = thunk_value;
                         if(rewrite_saved_iat)
                         {
                             if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
-- 
2.43.0


From 7f850e58bb8f235f1b54d8dfa586757424ee36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 27/85] fix: import tables at the section end could not be
 rewritten

---
 src/pe_lib/pe_imports.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 3f268c8..1deb1d7 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -560,7 +560,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(iat_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &iat_value, sizeof(iat_value));
@@ -578,7 +578,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //Else - write to IAT RVA of IMAGE_IMPORT_BY_NAME
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(rva_of_named_import))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(rva_of_named_import))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &rva_of_named_import, sizeof(rva_of_named_import));
@@ -597,7 +597,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                 {
                     if(rewrite_saved_original_iat)
                     {
-                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(rva_of_named_import))
+                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(rva_of_named_import))
                             throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                         memcpy(pe.section_data_from_rva(original_first_thunk, true), &rva_of_named_import, sizeof(rva_of_named_import));
@@ -635,7 +635,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                             iat_value = thunk_value;
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(iat_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &iat_value, sizeof(iat_value));
@@ -653,7 +653,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //Else - write ordinal to IAT
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(thunk_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -673,7 +673,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                 {
                     if(rewrite_saved_original_iat)
                     {
-                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(thunk_value))
                             throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                         memcpy(pe.section_data_from_rva(original_first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -696,7 +696,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
             if(rewrite_saved_iat)
             {
-                if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(thunk_value))
                     throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                 memcpy(pe.section_data_from_rva(first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -717,7 +717,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
             if(rewrite_saved_original_iat)
             {
-                if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(thunk_value))
                     throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                 memcpy(pe.section_data_from_rva(original_first_thunk, true), &thunk_value, sizeof(thunk_value));
-- 
2.43.0


From 2d21cdaee57f9e2b6a0a5bbe9bd9ca709bae1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 28/85] fix: rebuilding imports failed in images without IAT
 directory entry

---
 src/pe_lib/pe_imports.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 1deb1d7..efc8990 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -759,7 +759,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         pe.set_directory_size(image_directory_entry_import, ret.get_size());
 
         //If we are requested to zero IMAGE_DIRECTORY_ENTRY_IAT also
-        if(import_settings.zero_directory_entry_iat())
+        if(import_settings.zero_directory_entry_iat() && pe.get_number_of_rvas_and_sizes() > image_directory_entry_iat)
         {
             pe.set_directory_rva(image_directory_entry_iat, 0);
             pe.set_directory_size(image_directory_entry_iat, 0);
-- 
2.43.0


From 9fa6db2c8716ec7df3c984169e278f7f22a7783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 29/85] fix: reported import directory could end outside its
 section

---
 src/pe_lib/pe_imports.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index efc8990..9a53e48 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -750,7 +750,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
 
     //Return information about rebuilt import directory
-    image_directory ret(pe.rva_from_section_offset(import_section, import_settings.get_offset_from_section_start() + needed_size_for_strings), needed_size - needed_size_for_strings);
+    image_directory ret(pe.rva_from_section_offset(import_section, import_settings.get_offset_from_section_start() + needed_size_for_strings),
+        current_pos_for_original_iat - import_settings.get_offset_from_section_start() - needed_size_for_strings);
 
     //If auto-rewrite of PE headers is required
     if(import_settings.auto_set_to_pe_headers())
-- 
2.43.0


From 157378f5de17d305ec136bb9b8ca850b06ca2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 30/85] fix: rebuilding empty export list wrote outside the
 section

---
 src/pe_lib/pe_exports.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 10ee7f0..46b19c7 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -537,7 +537,9 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     needed_size_for_strings += needed_size_for_function_forwards;
     uint32_t needed_size_for_function_name_ordinals = number_of_names * sizeof(uint16_t);
     uint32_t needed_size_for_function_name_rvas = number_of_names * sizeof(uint32_t);
-    uint32_t needed_size_for_function_addresses = (max_ordinal - ordinal_base + 1) * sizeof(uint32_t);
+    //There are no functions in empty list, whatever its ordinal base is
+    const uint32_t number_of_functions = exports.empty() ? 0 : max_ordinal - ordinal_base + 1;
+    uint32_t needed_size_for_function_addresses = number_of_functions * sizeof(uint32_t);
     
     //Export directory header will be placed first
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
@@ -580,7 +582,7 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
         dir.MajorVersion = info.get_major_version();
         dir.MinorVersion = info.get_minor_version();
         dir.TimeDateStamp = info.get_timestamp();
-        dir.NumberOfFunctions = max_ordinal - ordinal_base + 1;
+        dir.NumberOfFunctions = number_of_functions;
         dir.NumberOfNames = number_of_names;
         dir.Base = ordinal_base;
         dir.AddressOfFunctions = pe.rva_from_section_offset(exports_section, current_pos_of_function_addresses);
-- 
2.43.0


From 103148582b87d3ae88dbe6fc188765ac0a1ad8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 31/85] fix: forwarders of functions exported by ordinal only
 were not recognized

---
 src/pe_lib/pe_exports.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 46b19c7..dc043c9 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -383,26 +383,26 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
                     func.set_name(func_name);
                     func.set_name_ordinal(ordinal2);
 
-                    //If the function is just a redirect, save its name
-                    if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
-                        rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
-                    {
-                        if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                    break;
+                }
+            }
 
-                        //Get forwarded function name pointer
-                        const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
+            //If the function is just a redirect, save its name (functions exported by ordinal only can be redirects, too)
+            if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
+                rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
+            {
+                if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                        //Check for null-termination
-                        if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                //Get forwarded function name pointer
+                const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
 
-                        //Set the name of forwarded function
-                        func.set_forwarded_name(forwarded_func_name);
-                    }
+                //Check for null-termination
+                if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                    break;
-                }
+                //Set the name of forwarded function
+                func.set_forwarded_name(forwarded_func_name);
             }
 
             //Add function info to output array
-- 
2.43.0


From ddc7c2214dfefcc520f498fecae2a8f7802dc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 32/85] fix: do not require empty export name tables to lie
 inside a section

---
 src/pe_lib/pe_exports.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index dc043c9..0087b88 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -326,7 +326,8 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
             < exports.NumberOfFunctions * sizeof(uint32_t))
             throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-        if(exports.AddressOfNames)
+        //Empty tables have no data, wherever they are
+        if(exports.AddressOfNames && exports.NumberOfNames)
         {
             //Check if it is enough bytes to hold name and ordinal tables
             if(pe.section_data_length_from_rva(exports.AddressOfNameOrdinals, exports.AddressOfNameOrdinals, section_data_virtual, true)
-- 
2.43.0


From fb66a5fb3e409e6c73b8a3f1b47e685386aafb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 33/85] fix: read back empty relocation directories

---
 src/pe_lib/pe_relocations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 331ea46..c06b015 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -109,6 +109,10 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     if(!pe.has_reloc())
         return ret;
 
+    //Empty directory has no relocation tables
+    if(!pe.get_directory_size(image_directory_entry_basereloc))
+        return ret;
+
     //Check the length in bytes of the section containing relocation directory
     if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_basereloc),
         pe.get_directory_rva(image_directory_entry_basereloc), section_data_virtual, true)
-- 
2.43.0


From ef367bdc321cb83dcde754d658e0511bfc1e7a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 34/85] fix: apply relocations at the width of their type

---
 src/pe_lib/pe_relocations.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index c06b015..aec639d 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -261,6 +261,15 @@ void rebase_image(pe_base& pe, const relocation_table_list& tables, uint64_t new
         : rebase_image_base<pe_types_class_64>(pe, tables, new_base);
 }
 
+//Helper: adds delta to the value, to which relocation points
+template<typename T>
+static void relocate_value(pe_base& pe, uint32_t rva, T delta)
+{
+    T value = pe.section_data_from_rva<T>(rva, section_data_raw, true);
+    value = static_cast<T>(value + delta);
+    memcpy(pe.section_data_from_rva(rva, true), &value, sizeof(value));
+}
+
 //RELOCATIONS
 //Recalculates image base with the help of relocation tables
 //Recalculates VAs of DWORDS/QWORDS in image according to relocations
@@ -276,6 +285,8 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
 
     //ImageBase difference
     typename PEClassType::BaseSize base_rel = static_cast<typename PEClassType::BaseSize>(static_cast<int64_t>(new_base) - image_base);
+    //The same for values of fixed size
+    uint64_t delta = static_cast<typename PEClassType::BaseSize>(new_base) - static_cast<uint64_t>(image_base);
 
     //We need to fix addresses from relocation tables
     //Enumerate relocation tables
@@ -294,9 +305,24 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
             
             //Recalculate value by RVA and rewrite it
             uint32_t current_rva = base_rva + (*rel).get_rva();
-            typename PEClassType::BaseSize value = pe.section_data_from_rva<typename PEClassType::BaseSize>(current_rva, section_data_raw, true);
-            value += base_rel;
-            memcpy(pe.section_data_from_rva(current_rva, true), &value, sizeof(value));
+            switch((*rel).get_type())
+            {
+            case pe_win::image_rel_based_high:
+                relocate_value<uint16_t>(pe, current_rva, static_cast<uint16_t>(delta >> 16));
+                break;
+            case pe_win::image_rel_based_low:
+                relocate_value<uint16_t>(pe, current_rva, static_cast<uint16_t>(delta));
+                break;
+            case pe_win::image_rel_based_highlow:
+                relocate_value<uint32_t>(pe, current_rva, static_cast<uint32_t>(delta));
+                break;
+            case pe_win::image_rel_based_dir64:
+                relocate_value<uint64_t>(pe, current_rva, delta);
+                break;
+            default:
+                relocate_value<typename PEClassType::BaseSize>(pe, current_rva, base_rel);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From c13be0bfd5f4ac8372baefd718afeff0ec280948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 35/85] fix: do not wrap relocation addresses around the
 address space

---
 src/pe_lib/pe_relocations.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index aec639d..f339fb7 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -303,6 +303,9 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
             if((*rel).get_type() == pe_win::image_rel_based_absolute)
                 continue;
             
+            if(!pe_utils::is_sum_safe(base_rva, (*rel).get_rva()))
+                throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
             //Recalculate value by RVA and rewrite it
             uint32_t current_rva = base_rva + (*rel).get_rva();
             switch((*rel).get_type())
-- 
2.43.0


From 5bd8040f956dc6eb35afacc49bc74713e34a4b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 36/85] fix: zero fill size of TLS without raw data was lost

---
 src/pe_lib/pe_tls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index e639cb0..ede90bb 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -258,9 +258,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     {
         pe.rva_to_va(info.get_raw_data_start_rva(), va);
         tls_struct.StartAddressOfRawData = va;
-        tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     }
 
+    tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
+
     if(info.get_raw_data_end_rva())
     {
         pe.rva_to_va(info.get_raw_data_end_rva(), va);
-- 
2.43.0


From 1e6b441122cd18761da0212dc61dd44b8da81c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 37/85] fix: last TLS callback element could be written outside
 section data

---
 src/pe_lib/pe_tls.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index ede90bb..5b4bf62 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <string.h>
 #include "pe_tls.h"
 #include "pe_properties_generic.h"
@@ -333,8 +334,8 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         }
 
         //Check if there's enough space to write callbacks TLS data...
-        if(pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true)
-            < needed_callback_size - sizeof(typename PEClassType::BaseSize) /* last zero element can be virtual only */)
+        const uint32_t available_raw_length = pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true);
+        if(available_raw_length < needed_callback_size - sizeof(typename PEClassType::BaseSize) /* last zero element can be virtual only */)
             throw pe_exception("Insufficient space for TLS callbacks data", pe_exception::insufficient_space);
         
         if(pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_virtual, true)
@@ -356,7 +357,9 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         callbacks_virtual_addresses.push_back(0);
 
         //Write callbacks TLS data
-        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], needed_callback_size);
+        const uint32_t write_callbacks_size = std::min<uint32_t>(needed_callback_size, available_raw_length);
+        if(write_callbacks_size != 0)
+            memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], write_callbacks_size);
     }
     
     //Adjust section raw and virtual sizes
-- 
2.43.0


From a9cd338debe2ebf0b43b1b757137d20d3cd7bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 38/85] fix: TLS raw data shorter than its range was read past
 its end

---
 src/pe_lib/pe_tls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 5b4bf62..6c0c308 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -312,6 +312,9 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
                 write_raw_data_size = available_raw_length; //We'll write just a part of full raw data
         }
 
+        //There can be less data than its range takes
+        write_raw_data_size = static_cast<uint32_t>(std::min<size_t>(write_raw_data_size, info.get_raw_data().length()));
+
         //Write raw TLS data, if any
         if(write_raw_data_size != 0)
             memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
-- 
2.43.0


From 7f65b0ed2321cf641ef0749c278f12c3cfc65484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 39/85] fix: load configuration tables ending in virtual data
 could not be read

---
 src/pe_lib/pe_load_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 10a79bc..bdc7de4 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -359,7 +359,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
 
     //Read sorted SE handler RVA list (if any)
     for(typename PEClassType::BaseSize i = 0; i != config_info.SEHandlerCount; ++i)
-        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t))));
+        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual));
 
     if(config_info.LockPrefixTable)
     {
@@ -367,7 +367,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         uint32_t current = 0;
         while(true)
         {
-            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)));
+            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual);
             if(!lock_prefix_va)
                 break;
 
-- 
2.43.0


From 6d4585230adf2f240538a527a44b205eb572fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 40/85] fix: ending null descriptor of bound imports was not
 written

---
 src/pe_lib/pe_bound_import.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 985ebf4..ed59928 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -273,6 +273,12 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
         }
     }
 
+    {
+        //Ending null descriptor
+        image_bound_import_descriptor descriptor = {0};
+        memcpy(&raw_data[current_pos_for_structures], &descriptor, sizeof(descriptor));
+    }
+
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(imports_section, auto_strip_last_section);
     
-- 
2.43.0


From 71d264ca379e65efec0cf41b786076b46262809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 41/85] fix: bound imports ending in virtual data could not be
 read or kept

---
 src/pe_lib/pe_bound_import.cpp | 4 ++--
 src/pe_lib/pe_rebuilder.cpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index ed59928..5aeb687 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -115,12 +115,12 @@ const bound_import_module_list get_bound_import_module_list(const pe_base& pe)
         return ret;
 
     uint32_t bound_import_data_len =
-        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     if(bound_import_data_len < pe.get_directory_size(image_directory_entry_bound_import))
         throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     
-    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     //Check read in "read_pe" function raw bound import data size
     if(bound_import_data_len < sizeof(image_bound_import_descriptor))
diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 33ca640..a3e8d6f 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -95,7 +95,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
 
     if(save_bound_import && pe.has_bound_import())
     {
-        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true)
+        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true)
             < pe.get_directory_size(image_directory_entry_bound_import))
             throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     }
-- 
2.43.0


From ee361c5a3675087e80cf6419596af4ef8758cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 42/85] fix: bound imports that 16-bit offsets cannot express
 were written truncated

---
 src/pe_lib/pe_bound_import.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 5aeb687..f6c77b7 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -226,6 +226,21 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
     }
     
     needed_size += needed_size_for_strings;
+
+    //Numbers of references and offsets of names (the last one is the biggest) are stored as WORDs
+    for(bound_import_module_list::const_iterator it = imports.begin(); it != imports.end(); ++it)
+    {
+        if((*it).get_module_ref_count() > pe_utils::max_word)
+            throw pe_exception("Too many bound import references", pe_exception::incorrect_bound_import_directory);
+    }
+
+    if(!imports.empty())
+    {
+        const bound_import& last = imports.back();
+        const std::string& last_name = last.get_module_ref_list().empty() ? last.get_module_name() : last.get_module_ref_list().back().get_module_name();
+        if(needed_size - (last_name.length() + 1) > pe_utils::max_word)
+            throw pe_exception("Bound import directory is too long", pe_exception::incorrect_bound_import_directory);
+    }
     
     //Check if imports_section is last one. If it's not, check if there's enough place for bound import data
     if(&imports_section != &*(pe.get_image_sections().end() - 1) && 
-- 
2.43.0


From 2af96f6421330fabe77f10a5848a59e28c4e21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 43/85] fix: CodeView 4.0, 5.0 and other CodeView information
 was never reported

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 4c505fa..59f4de3 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -302,7 +302,7 @@ const coff_debug_info debug_info::get_advanced_debug_info<coff_debug_info>() con
 void debug_info::set_advanced_info_type(advanced_info_type type)
 {
     free_present_advanced_info();
-    if(advanced_info_type_ >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
+    if(type >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
         advanced_info_type_ = type;
 }
 
-- 
2.43.0


From 434a69432ba557909fbca70acc3526a6d9275763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 44/85] fix: read COFF file names behind their symbols

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 59f4de3..0819386 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -681,7 +681,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                         if(sym->StorageClass == image_sym_class_file)
                         {
                             //Save file name, it is situated just after this IMAGE_SYMBOL structure
-                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
+                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + coff->LvaToFirstSymbol + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
                             pe_utils::strip_nullbytes(file_name);
                             symbol.set_file_name(file_name);
 
-- 
2.43.0


From 14a03321f26e359d99d555bc1d51aff039250582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 45/85] fix: auxiliary COFF symbols could reach past the symbol
 table

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 0819386..3647365 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -673,7 +673,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
                         //Check data length again
                         if(!pe_utils::is_sum_safe(i, sym->NumberOfAuxSymbols)
-                            || (i + sym->NumberOfAuxSymbols) > coff->NumberOfSymbols
+                            || (i + sym->NumberOfAuxSymbols) >= coff->NumberOfSymbols
                             || debug_data.length() < (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol + sym->NumberOfAuxSymbols * sizeof(image_symbol))
                             throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
-- 
2.43.0


From 22730a6ce039da156a5160b5e9a806a86257844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 46/85] fix: auxiliary COFF symbols were decoded as symbols

---
 src/pe_lib/pe_debug.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 3647365..8b96e68 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -741,11 +741,10 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
                             //Save symbol info
                             coff_info.add_symbol(symbol);
-
-                            //Move to next symbol
-                            i += sym->NumberOfAuxSymbols;
-                            continue;
                         }
+
+                        //Move to next symbol
+                        i += sym->NumberOfAuxSymbols;
                     }
 
                     info.set_advanced_debug_info(coff_info);
-- 
2.43.0


From 22b973823a14cb8604f6fb549c1481ce229b42fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 47/85] fix: refuse MISC debug information shorter than its
 header

---
 src/pe_lib/pe_debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 8b96e68..3c1d179 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -820,7 +820,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
                     const image_debug_misc* misc_data = reinterpret_cast<const image_debug_misc*>(debug_data.data());
 
                     //Check misc data length
-                    if(debug_data.length() < misc_data->Length /* Total length of record */)
+                    if(misc_data->Length < sizeof(image_debug_misc) - 1 /* BYTE[1] in the end of structure */
+                        || debug_data.length() < misc_data->Length /* Total length of record */)
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Save advanced information
-- 
2.43.0


From ac8d48bc29e4ad40e851ee08e01fd0960f9414ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 48/85] fix: debug directories at the end of a section could
 not be read

---
 src/pe_lib/pe_debug.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 3c1d179..0af2472 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -840,6 +840,11 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
         //Go to next debug entry
         current_pos += sizeof(image_debug_directory);
+
+        //Last entry may end together with its section
+        if(current_pos >= pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
+            break;
+
         directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From 5b64b259329e4c3678d4d3c387e3dd0442a46a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 49/85] fix: debug entries without data ended the debug
 directory

---
 src/pe_lib/pe_base.cpp  | 3 ++-
 src/pe_lib/pe_debug.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 6ea5594..f90968a 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1035,13 +1035,14 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             image_debug_directory directory = section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
 
             //Iterate over all IMAGE_DEBUG_DIRECTORY directories
-            while(directory.PointerToRawData
+            while((directory.PointerToRawData || directory.Type)
                 && current_pos < get_directory_rva(image_directory_entry_debug) + get_directory_size(image_directory_entry_debug))
             {
                 //If we have something to read
                 if((directory.Type == image_debug_type_codeview
                     || directory.Type == image_debug_type_misc
                     || directory.Type == image_debug_type_coff)
+                    && directory.PointerToRawData
                     && directory.SizeOfData)
                 {
                     std::string data;
diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 0af2472..6304a73 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -625,7 +625,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
     //Iterate over all IMAGE_DEBUG_DIRECTORY directories
-    while(directory.PointerToRawData
+    //Entries that have no data (such as ILTCG) are listed too, list may be ended by a null entry
+    while((directory.PointerToRawData || directory.Type)
         && current_pos < pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
     {
         //Create debug information structure
-- 
2.43.0


From 71e4ddfe6df121263a428a4ea7e1304e79518a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 50/85] fix: debug data outside the file hid the data of other
 debug entries

---
 src/pe_lib/pe_base.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index f90968a..9acbb8d 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1045,14 +1045,18 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     && directory.PointerToRawData
                     && directory.SizeOfData)
                 {
-                    std::string data;
-                    data.resize(directory.SizeOfData);
-                    file.seekg(directory.PointerToRawData);
-                    file.read(&data[0], directory.SizeOfData);
-                    if(file.fail() || file.eof())
-                        throw pe_exception("Error reading file", pe_exception::error_reading_file);
-
-                    debug_data_.insert(std::make_pair(directory.PointerToRawData, data));
+                    //Skip data that the file doesn't contain, but read the data of other entries
+                    if(static_cast<std::streamoff>(directory.PointerToRawData) + directory.SizeOfData <= filesize)
+                    {
+                        std::string data;
+                        data.resize(directory.SizeOfData);
+                        file.seekg(directory.PointerToRawData);
+                        file.read(&data[0], directory.SizeOfData);
+                        if(file.fail() || file.eof())
+                            throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
+                        debug_data_.insert(std::make_pair(directory.PointerToRawData, data));
+                    }
                 }
 
                 //Go to next debug entry
-- 
2.43.0


From 29250bec7512b9610e39714a8b8e19bf7b53db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 51/85] fix: debug data of images dumped from memory was read
 from file offsets

---
 src/pe_lib/pe_base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 9acbb8d..db7a0f5 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1045,12 +1045,15 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     && directory.PointerToRawData
                     && directory.SizeOfData)
                 {
+                    //Data in the file dumped from memory is at its RVA, if it is mapped
+                    uint32_t data_pos = is_file_from_mem ? directory.AddressOfRawData : directory.PointerToRawData;
+
                     //Skip data that the file doesn't contain, but read the data of other entries
-                    if(static_cast<std::streamoff>(directory.PointerToRawData) + directory.SizeOfData <= filesize)
+                    if(data_pos && static_cast<std::streamoff>(data_pos) + directory.SizeOfData <= filesize)
                     {
                         std::string data;
                         data.resize(directory.SizeOfData);
-                        file.seekg(directory.PointerToRawData);
+                        file.seekg(data_pos);
                         file.read(&data[0], directory.SizeOfData);
                         if(file.fail() || file.eof())
                             throw pe_exception("Error reading file", pe_exception::error_reading_file);
-- 
2.43.0


From b8e59c76092e3ad3d203cb21ee1b129aebeae9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 52/85] fix: exception entries were read past the end of their
 directory

---
 src/pe_lib/pe_exception_directory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index f613746..919178b 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -133,8 +133,14 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
     //First IMAGE_RUNTIME_FUNCTION_ENTRY table
     image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
 
+    if(!pe_utils::is_sum_safe(pe.get_directory_rva(image_directory_entry_exception), pe.get_directory_size(image_directory_entry_exception)))
+        throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
+
+    uint32_t directory_end = pe.get_directory_rva(image_directory_entry_exception) + pe.get_directory_size(image_directory_entry_exception);
+
     //todo: virtual addresses BeginAddress and EndAddress are not checked to be inside image
-    while(exception_table.BeginAddress)
+    //Entries end together with the directory, or with a null entry
+    while(current_pos < directory_end && exception_table.BeginAddress)
     {
         //Check addresses
         if(exception_table.BeginAddress > exception_table.EndAddress)
@@ -148,6 +154,9 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
 
         //Go to next exception entry
         current_pos += sizeof(image_runtime_function_entry);
+        if(current_pos >= directory_end)
+            break;
+
         exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From 3d91cc1c843d22ac46f0826627001d037f2904ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 53/85] fix: unwind information without codes at the end of a
 section could not be read

---
 src/pe_lib/pe_exception_directory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index 919178b..deeb4e8 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "pe_exception_directory.h"
 
 namespace pe_bliss
@@ -146,8 +147,11 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
         if(exception_table.BeginAddress > exception_table.EndAddress)
             throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
-        //Get unwind information
-        unwind_info info = pe.section_data_from_rva<unwind_info>(exception_table.UnwindInfoAddress, section_data_virtual, true);
+        //Get unwind information: only its header, as there may be no unwind codes
+        uint32_t unwind_header = pe.section_data_from_rva<uint32_t>(exception_table.UnwindInfoAddress, section_data_virtual, true);
+        unwind_info info;
+        memset(&info, 0, sizeof(info));
+        memcpy(&info, &unwind_header, sizeof(unwind_header));
 
         //Create exception entry and save it
         ret.push_back(exception_entry(exception_table, info));
-- 
2.43.0


From 10ebe563c780e15494d41ff7a4d0d5a3e24020ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 54/85] fix: refuse odd sizes of every relocation block

---
 src/pe_lib/pe_relocations.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index f339fb7..a72ff71 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -123,9 +123,6 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     //First IMAGE_BASE_RELOCATION table
     image_base_relocation reloc_table = pe.section_data_from_rva<image_base_relocation>(current_pos, section_data_virtual, true);
 
-    if(reloc_table.SizeOfBlock % 2)
-        throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
-
     uint32_t reloc_size = pe.get_directory_size(image_directory_entry_basereloc);
     uint32_t read_size = 0;
 
@@ -137,6 +134,9 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
         //Save RVA
         table.set_rva(reloc_table.VirtualAddress);
 
+        if(reloc_table.SizeOfBlock % 2)
+            throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
         if(!pe_utils::is_sum_safe(current_pos, reloc_table.SizeOfBlock))
             throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
 
-- 
2.43.0


From eb9d34dfb18da446b24a6be63db305fe1e0cc9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 55/85] fix: resource names were read past the end of their
 section

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index a5ac3e3..ceba6a8 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -364,7 +364,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 
             //Check name length
             if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
-                < directory_name_length)
+                < directory_name_length * sizeof(uint16_t) /* unicode */)
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
-- 
2.43.0


From 577772a4c1a624b6a07e54e53bedb4ec52c3bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 56/85] fix: empty resource data at the end of a section could
 not be read

---
 src/pe_lib/pe_resources.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index ceba6a8..96e62bc 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -397,14 +397,18 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
             image_resource_data_entry data_entry = pe.section_data_from_rva<image_resource_data_entry>(
                 res_rva + dir_entry.DirItem.OffsetToData, section_data_virtual, true);
 
-            //Check byte count that stated by data entry
-            if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
-                throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+            std::string data;
+            if(data_entry.Size != 0) //Empty data needs no bytes and can be placed at the end of section
+            {
+                //Check byte count that stated by data entry
+                if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
+                    throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
+                data.assign(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size);
+            }
 
             //Add data entry to directory entry
-            entry.add_data_entry(resource_data_entry(
-                std::string(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size),
-                data_entry.CodePage));
+            entry.add_data_entry(resource_data_entry(data, data_entry.CodePage));
         }
 
         //Save directory entry
-- 
2.43.0


From 282492231073b3682bbb2db52e8eecc3cc188439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 57/85] fix: deeply nested resource directories exhausted the
 stack

---
 src/pe_lib/pe_resources.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 96e62bc..dbda3b9 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -317,11 +317,17 @@ void resource_directory::get_minor_version(uint16_t minor_version)
     minor_version_ = minor_version;
 }
 
+//Deepest level of nested resource directories that can be read (an image usually has three levels)
+static const uint32_t maximum_resource_directory_depth = 64;
+
 //Processes resource directory
-const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed)
+const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed, uint32_t depth)
 {
     resource_directory ret;
-    
+
+    //Check nesting: directories are processed recursively
+    if(depth > maximum_resource_directory_depth)
+        throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
     //Check for resource loops
     if(!processed.insert(offset_to_directory).second)
         throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
@@ -389,7 +395,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         const auto& dirEntry = dir_entry.DirItem.DirEntry;
         if(dirEntry.DataIsDirectory)
         {
-            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed));
+            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed, depth + 1));
         }
         else
         {
@@ -644,7 +650,7 @@ const resource_directory get_resources(const pe_base& pe)
     std::set<uint32_t> processed;
     
     //Process all directories (recursion)
-    ret = process_resource_directory(pe, res_rva, 0, processed);
+    ret = process_resource_directory(pe, res_rva, 0, processed, 1);
 
     return ret;
 }
-- 
2.43.0


From f5d8f55d94b5ff0b0475f4c5be94e1cf798b80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 58/85] fix: resource names, IDs and entry counts that cannot
 be stored were written truncated

---
 src/pe_lib/pe_resources.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index dbda3b9..577d20d 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -429,16 +429,38 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 void calculate_resource_data_space(const resource_directory& root, uint32_t aligned_offset_from_section_start, uint32_t& needed_size_for_structures, uint32_t& needed_size_for_strings)
 {
     needed_size_for_structures += sizeof(image_resource_directory);
+
+    size_t number_of_named_entries = 0;
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
         needed_size_for_structures += sizeof(image_resource_directory_entry);
 
         if((*it).is_named())
+        {
+            //Name length is stored as WORD
+            if((*it).get_name().length() > pe_utils::max_word)
+                throw pe_exception("Resource name is too long", pe_exception::incorrect_resource_directory);
+
+#ifndef PE_BLISS_WINDOWS
+            pe_utils::to_ucs2((*it).get_name()); //Throws if name cannot be stored
+#endif
+
             needed_size_for_strings += static_cast<uint32_t>(((*it).get_name().length() + 1) * 2 /* unicode */ + sizeof(uint16_t) /* for string length */);
+            ++number_of_named_entries;
+        }
+        else if((*it).get_id() & 0x80000000)
+        {
+            //High bit marks named entries
+            throw pe_exception("Resource ID is too big", pe_exception::incorrect_resource_directory);
+        }
 
         if(!(*it).includes_data())
             calculate_resource_data_space((*it).get_resource_directory(), aligned_offset_from_section_start, needed_size_for_structures, needed_size_for_strings);
     }
+
+    //Numbers of named and ID entries are stored as WORDs
+    if(number_of_named_entries > pe_utils::max_word || root.get_entry_list().size() - number_of_named_entries > pe_utils::max_word)
+        throw pe_exception("Too many resource directory entries", pe_exception::incorrect_resource_directory);
 }
 
 //Helper function to calculate needed space for resource data
-- 
2.43.0


From 502c2c0bf0e5fa6e7516c8f7f4287f91ad686638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 59/85] fix: resource IDs above 65535 were read truncated

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 577d20d..f12cada 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -388,7 +388,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         else
         {
             //Else - set directory ID
-            entry.set_id(dir_entry.NameItem.Id);
+            entry.set_id(dir_entry.NameItem.Name); //High bit is clear
         }
 
         //If directory entry has another resource directory
-- 
2.43.0


From 54ee018029586916dd0fdacc2c9ac08b729323ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 60/85] fix: unsorted resources could be written past the end
 of their section

---
 src/pe_lib/pe_resources.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index f12cada..2b94d6d 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -490,6 +490,19 @@ public:
     bool operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const;
 };
 
+//Helper function to sort entries of resource directory and all nested ones
+void sort_resource_directory(resource_directory& root)
+{
+    resource_directory::entry_list& entries = root.get_entry_list();
+    std::sort(entries.begin(), entries.end(), entry_sorter());
+
+    for(resource_directory::entry_list::iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if(!(*it).includes_data())
+            sort_resource_directory((*it).get_resource_directory());
+    }
+}
+
 //Helper function to rebuild resource directory
 void rebuild_resource_directory(pe_base& pe, section& resource_section, resource_directory& root, uint32_t& current_structures_pos, uint32_t& current_data_pos, uint32_t& current_strings_pos, uint32_t offset_from_section_start)
 {
@@ -500,11 +513,6 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
     dir.MinorVersion = root.get_minor_version();
     dir.TimeDateStamp = root.get_timestamp();
     
-    {
-        resource_directory::entry_list& entries = root.get_entry_list();
-        std::sort(entries.begin(), entries.end(), entry_sorter());
-    }
-
     //Calculate number of named and ID entries
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
@@ -611,6 +619,9 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
     if(info.get_entry_list().empty())
         throw pe_exception("Empty resource directory", pe_exception::incorrect_resource_directory);
     
+    //Sort first: space needed to align data depends on its order
+    sort_resource_directory(info);
+
     uint32_t aligned_offset_from_section_start = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
     uint32_t needed_size_for_structures = aligned_offset_from_section_start - offset_from_section_start; //Calculate needed size for resource tables and data
     uint32_t needed_size_for_strings = 0;
-- 
2.43.0


From 9641e2a371fcfcf60089ee470f4ea6a2a1342eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 61/85] fix: strings of damaged string tables were read past
 the end of the resource

---
 src/pe_lib/resource_string_table_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_string_table_reader.cpp b/src/pe_lib/resource_string_table_reader.cpp
index 5ebbe61..1512eb7 100644
--- a/src/pe_lib/resource_string_table_reader.cpp
+++ b/src/pe_lib/resource_string_table_reader.cpp
@@ -38,7 +38,7 @@ const resource_string_list resource_string_table_reader::parse_string_list(uint3
         passed_bytes += sizeof(uint16_t); //WORD containing string length
 
         //Check resource data length again
-        if(resource_data.length() < string_length + passed_bytes)
+        if(resource_data.length() < string_length * sizeof(uint16_t) /* unicode */ + passed_bytes)
             throw pe_exception("Incorrect resource string table", pe_exception::resource_incorrect_string_table);
 
         if(string_length)
-- 
2.43.0


From 5e28dc78c8b2140684c901ed301c0af97d11e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 62/85] fix: version strings of damaged version information
 were read past the end of the resource

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 404914e..e61c672 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -165,7 +165,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         //Get value position
                         uint32_t value_pos = get_version_block_value_pos(string_pos, reinterpret_cast<const unicode16_t*>(string_block->Key));
                         //Check it
-                        if(resource_data.length() < value_pos + string_block->ValueLength)
+                        if(resource_data.length() < value_pos + string_block->ValueLength * sizeof(uint16_t) /* unicode */)
                             throw pe_exception("Incorrect resource version info", pe_exception::resource_incorrect_version_info);
 
                         //Get UNICODE string value
-- 
2.43.0


From 1fa7e28bd6b1d29cff883edfa2382a335f10e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 63/85] fix: incomplete translations of version information
 were read past the end of the resource

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index e61c672..f316954 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -225,7 +225,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         throw_incorrect_version_info();
 
                     //Get list of translations: pairs of LANGUAGE_ID - CODEPAGE_ID
-                    for(uint32_t i = 0; i < var_table->ValueLength; i += sizeof(uint16_t) * 2)
+                    for(uint32_t i = 0; i + sizeof(uint16_t) * 2 <= var_table->ValueLength; i += sizeof(uint16_t) * 2)
                     {
                         //Pair of WORDs
                         uint16_t lang_id = *reinterpret_cast<const uint16_t*>(resource_data.data() + value_pos + i);
-- 
2.43.0


From f5434af3c833899a1ac0b35a5b514c0b77d82545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 64/85] fix: version information longer than its 16-bit length
 was written truncated

---
 src/pe_lib/resource_version_info_writer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/resource_version_info_writer.cpp b/src/pe_lib/resource_version_info_writer.cpp
index 5456bf8..5959515 100644
--- a/src/pe_lib/resource_version_info_writer.cpp
+++ b/src/pe_lib/resource_version_info_writer.cpp
@@ -1,6 +1,7 @@
 #include <string.h>
 #include "resource_version_info_writer.h"
 #include "pe_structures.h"
+#include "pe_exception.h"
 #include "resource_internal.h"
 #include "utils.h"
 #include "pe_resource_manager.h"
@@ -62,6 +63,10 @@ void resource_version_info_writer::set_version_info(const file_version_info& fil
         total_version_info_length += static_cast<uint32_t>(translations.size() * sizeof(uint16_t) * 2);
     }
 
+    //Length of root block (and of all others, which are shorter) is stored as WORD
+    if(total_version_info_length > pe_utils::max_word)
+        throw pe_exception("Version information is too long", pe_exception::resource_incorrect_version_info);
+
     //Resize version data buffer
     version_data.resize(total_version_info_length);
 
-- 
2.43.0


From e1acb4826ee46c6dc0bf2b8b36b777767b642454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 65/85] fix: short message tables were refused

---
 src/pe_lib/resource_message_list_reader.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index a94f297..9c96e89 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -15,15 +15,16 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     resource_message_list ret;
 
     //Check resource data length
-    if(resource_data.length() < sizeof(message_resource_data))
+    static const uint32_t size_of_message_data_header = sizeof(message_resource_data) - sizeof(message_resource_block); //Without first block
+    if(resource_data.length() < size_of_message_data_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     const message_resource_data* message_data = reinterpret_cast<const message_resource_data*>(resource_data.data());
 
     //Check resource data length more carefully and some possible overflows
     if(message_data->NumberOfBlocks >= pe_utils::max_dword / sizeof(message_resource_block)
-        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), sizeof(message_resource_data))
-        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data))
+        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), size_of_message_data_header)
+        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + size_of_message_data_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     //Iterate over all message resource blocks
@@ -31,7 +32,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     {
         //Get block
         const message_resource_block* block =
-            reinterpret_cast<const message_resource_block*>(resource_data.data() + sizeof(message_resource_data) - sizeof(message_resource_block) + sizeof(message_resource_block) * i);
+            reinterpret_cast<const message_resource_block*>(resource_data.data() + size_of_message_data_header + sizeof(message_resource_block) * i);
 
         //Check resource data length and IDs
         if(resource_data.length() < block->OffsetToEntries || block->LowId > block->HighId)
-- 
2.43.0


From 6086bf535154438657d1967c7868dc4c8dd5f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 66/85] fix: message tables up to ID 0xFFFFFFFF were refused

---
 src/pe_lib/resource_message_list_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index 9c96e89..b6b1328 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -91,6 +91,10 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
 
             //Go to next entry
             current_pos += entry->Length;
+
+            //Last ID can be the biggest possible one
+            if(curr_id == block->HighId)
+                break;
         }
     }
 
-- 
2.43.0


From 8af31aeaf9bd06734c3d885cd40a1fd79050663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 67/85] fix: removing a translation kept string tables with
 upper-case keys

---
 src/pe_lib/version_info_editor.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index 8bc8403..ea19b9b 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -1,5 +1,7 @@
+#include <algorithm>
 #include <sstream>
 #include <iomanip>
+#include <wctype.h>
 #include "version_info_types.h"
 #include "version_info_editor.h"
 #include "version_info_viewer.h"
@@ -144,7 +146,17 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
         
-        strings_edit_.erase(ss.str());
+        //Hex digits of table key can be in any case
+        const std::wstring key(ss.str());
+        for(lang_string_values_map::iterator it = strings_edit_.begin(); it != strings_edit_.end();)
+        {
+            std::wstring table_key((*it).first);
+            std::transform(table_key.begin(), table_key.end(), table_key.begin(), towlower);
+            if(table_key == key)
+                strings_edit_.erase(it++);
+            else
+                ++it;
+        }
     }
 
     //Find and erase translation from translations table
-- 
2.43.0


From 29608456a2f454a01806bced257b16335665a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 68/85] fix: pixel offset of bitmaps with color masks, long
 headers or no color depth was wrong

---
 src/pe_lib/resource_bitmap_reader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_bitmap_reader.cpp b/src/pe_lib/resource_bitmap_reader.cpp
index a3952d4..f3b92c1 100644
--- a/src/pe_lib/resource_bitmap_reader.cpp
+++ b/src/pe_lib/resource_bitmap_reader.cpp
@@ -52,10 +52,16 @@ const std::string resource_bitmap_reader::create_bitmap(const std::string& resou
         //Get bitmap info header
         const bitmapinfoheader* info = reinterpret_cast<const bitmapinfoheader*>(resource_data.data());
 
+        //Later versions of info header are longer
+        if(info->biSize > sizeof(bitmapinfoheader))
+            header.bfOffBits += info->biSize - sizeof(bitmapinfoheader);
+        else if(info->biCompression == 3 /* BI_BITFIELDS */)
+            header.bfOffBits += 3 * sizeof(uint32_t); //Color masks
+
         //If color table is present, skip it
         if(info->biClrUsed != 0)
             header.bfOffBits += 4 * info->biClrUsed; //Add this size to offset to bitmap bits
-        else if(info->biBitCount <= 8)
+        else if(info->biBitCount != 0 && info->biBitCount <= 8)
             header.bfOffBits += 4 * static_cast<uint32_t>(std::pow(2.f, info->biBitCount)); //Add this size to offset to bitmap bits
     }
 
-- 
2.43.0


From 4135c748dfd51fc9f0a13cbdc0496c3c5ff6ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 69/85] fix: files without bitmap signature were stored as
 bitmaps

---
 src/pe_lib/resource_bitmap_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_bitmap_writer.cpp b/src/pe_lib/resource_bitmap_writer.cpp
index 27432c8..0fdbf8c 100644
--- a/src/pe_lib/resource_bitmap_writer.cpp
+++ b/src/pe_lib/resource_bitmap_writer.cpp
@@ -15,7 +15,7 @@ resource_bitmap_writer::resource_bitmap_writer(pe_resource_manager& res)
 void resource_bitmap_writer::add_bitmap(const std::string& bitmap_file, uint32_t id, uint32_t language, uint32_t codepage, uint32_t timestamp)
 {
     //Check bitmap data a little
-    if(bitmap_file.length() < sizeof(bitmapfileheader))
+    if(bitmap_file.length() < sizeof(bitmapfileheader) || bitmap_file[0] != 'B' || bitmap_file[1] != 'M')
         throw pe_exception("Incorrect resource bitmap", pe_exception::resource_incorrect_bitmap);
 
     resource_directory_entry new_entry;
@@ -30,7 +30,7 @@ void resource_bitmap_writer::add_bitmap(const std::string& bitmap_file, uint32_t
 void resource_bitmap_writer::add_bitmap(const std::string& bitmap_file, const std::wstring& name, uint32_t language, uint32_t codepage, uint32_t timestamp)
 {
     //Check bitmap data a little
-    if(bitmap_file.length() < sizeof(bitmapfileheader))
+    if(bitmap_file.length() < sizeof(bitmapfileheader) || bitmap_file[0] != 'B' || bitmap_file[1] != 'M')
         throw pe_exception("Incorrect resource bitmap", pe_exception::resource_incorrect_bitmap);
 
     resource_directory_entry new_entry;
-- 
2.43.0


From 753d890f22c705ec73016b86058caa6b28537695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 70/85] fix: replacing a resource with data of its own tree
 used released data

---
 src/pe_lib/pe_resource_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resource_manager.cpp b/src/pe_lib/pe_resource_manager.cpp
index ca0a335..5735902 100644
--- a/src/pe_lib/pe_resource_manager.cpp
+++ b/src/pe_lib/pe_resource_manager.cpp
@@ -187,6 +187,9 @@ void pe_resource_manager::add_resource(const std::string& data, const std::wstri
 //Helper to add/replace resource
 void pe_resource_manager::add_resource(const std::string& data, resource_directory_entry& new_root_entry, const resource_directory::entry_finder& root_finder, resource_directory_entry& new_entry, const resource_directory::entry_finder& finder, uint32_t language, uint32_t codepage, uint32_t timestamp)
 {
+    //Copy data first: it can be owned by the entry that will be replaced
+    resource_data_entry data_dir(data, codepage);
+
     //Search for resource type
     resource_directory::entry_list* entries = &root_dir_edit_.get_entry_list();
     resource_directory::entry_list::iterator it = std::find_if(entries->begin(), entries->end(), root_finder);
@@ -221,7 +224,6 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
 
     //Add new data entry
     resource_directory_entry new_dir_data_entry;
-    resource_data_entry data_dir(data, codepage);
     new_dir_data_entry.add_data_entry(data_dir);
     new_dir_data_entry.set_id(language);
     entries->push_back(new_dir_data_entry);
-- 
2.43.0


From ba85b0e91ebc3f175f88abe61a4b453209f009f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 71/85] fix: heights of cursors of 128 pixels and more were
 read wrongly

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index c519124..7f73ef7 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -298,7 +298,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         cursordirentry direntry;
         direntry.ColorCount = 0; //OK
         direntry.Width = static_cast<uint8_t>(group->Width);
-        direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+        direntry.Height = static_cast<uint8_t>(group->Height / 2);
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
@@ -441,7 +441,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
             cursordirentry direntry;
             direntry.ColorCount = 0; //OK
             direntry.Width = static_cast<uint8_t>(group->Width);
-            direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+            direntry.Height = static_cast<uint8_t>(group->Height / 2);
             direntry.Reserved = 0;
 
             if(raw_cursor_data.length() < 2 * sizeof(uint16_t))
-- 
2.43.0


From 5622493b5020bda6f055a9a763019442c6cc4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 72/85] fix: icon and cursor numbers past 65535 overwrote other
 pictures

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index faae7bd..b7ba075 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -6,6 +6,9 @@ namespace pe_bliss
 {
 using namespace pe_win;
 
+//Maximum ID of icon or cursor, which can be stored in icon or cursor group
+static const uint32_t max_icon_cursor_id = 0xFFFF;
+
 resource_cursor_icon_writer::resource_cursor_icon_writer(pe_resource_manager& res)
     :res_(res)
 {}
@@ -129,9 +132,9 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
                     {
                         if(*it > 1)
                         {
-                            for(uint16_t i = 1; i != *it; ++i)
+                            for(uint32_t i = 1; i != *it && i <= max_icon_cursor_id; ++i)
                             {
-                                icon_cursor_id_list.push_back(i);
+                                icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
                                 if(icon_cursor_id_list.size() == count)
                                     break;
                             }
@@ -139,9 +142,9 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
                     }
                     else if(*(it - 1) - *it > 1)
                     {
-                        for(uint16_t i = static_cast<uint16_t>(*(it - 1) + 1); i != static_cast<uint16_t>(*it); ++i)
+                        for(uint32_t i = *(it - 1) + 1; i != *it && i <= max_icon_cursor_id; ++i)
                         {
-                            icon_cursor_id_list.push_back(i);
+                            icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
                             if(icon_cursor_id_list.size() == count)
                                 break;
                         }
@@ -154,15 +157,19 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
         }
 
         uint32_t max_id = id_list.empty() ? 0 : *std::max_element(id_list.begin(), id_list.end());
-        for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count; ++i)
+        while(icon_cursor_id_list.size() != count && max_id < max_icon_cursor_id)
             icon_cursor_id_list.push_back(static_cast<uint16_t>(++max_id));
     }
     catch(const pe_exception&) //Entry not found
     {
-        for(uint16_t i = 1; i != count + 1; ++i)
-            icon_cursor_id_list.push_back(i);
+        for(uint32_t i = 1; i != count + 1; ++i)
+            icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
     }
 
+    //IDs are stored in icon and cursor groups as 16-bit values
+    if(icon_cursor_id_list.size() != count)
+        throw pe_exception("Not enough free icon or cursor IDs", pe_exception::resource_incorrect_icon);
+
     return icon_cursor_id_list;
 }
 
-- 
2.43.0


From 2dd4816859630386919ca4957151cd734339baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 73/85] fix: adding more than 65535 icons or cursors to one
 group lost pictures

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index b7ba075..da3f24a 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -60,6 +60,10 @@ void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const r
         if(icon_group_data.length() < sizeof(ico_header) + info->Count * sizeof(icon_group))
             throw pe_exception("Incorrect resource icon", pe_exception::resource_incorrect_icon);
 
+        //Icon count is stored in group as 16-bit value
+        if(info->Count + icon_header->Count > 0xFFFF)
+            throw pe_exception("Too many icons in icon group", pe_exception::resource_incorrect_icon);
+
         icon_group_data.resize(sizeof(ico_header) + (info->Count + icon_header->Count) * sizeof(icon_group));
         info = reinterpret_cast<ico_header*>(&icon_group_data[0]); //In case if memory was reallocated
     }
@@ -220,6 +224,10 @@ void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, con
         if(cursor_group_data.length() < sizeof(cursor_header) + info->Count * sizeof(cursor_group))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
+        //Cursor count is stored in group as 16-bit value
+        if(info->Count + cur_header->Count > 0xFFFF)
+            throw pe_exception("Too many cursors in cursor group", pe_exception::resource_incorrect_cursor);
+
         cursor_group_data.resize(sizeof(cursor_header) + (info->Count + cur_header->Count) * sizeof(cursor_group));
         info = reinterpret_cast<cursor_header*>(&cursor_group_data[0]); //In case if memory was reallocated
     }
-- 
2.43.0


From 6194a8427cc101adf1f804a746f37e6077aed928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 74/85] fix: gap between icon numbers was computed in the wrong
 direction

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index da3f24a..38a38e5 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -144,7 +144,7 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
                             }
                         }
                     }
-                    else if(*(it - 1) - *it > 1)
+                    else if(*it - *(it - 1) > 1)
                     {
                         for(uint32_t i = *(it - 1) + 1; i != *it && i <= max_icon_cursor_id; ++i)
                         {
-- 
2.43.0


From 9e4c7b286d76ef5f1b5735343bbfae25b8158ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 75/85] fix: icon and cursor groups of several languages could
 not be read by index

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 35 +++++++++++++++++-----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 7f73ef7..6d5d0d1 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -7,6 +7,23 @@ namespace pe_bliss
 {
 using namespace pe_win;
 
+//Returns language of group of icons or cursors by its index in language directory (or 0xFFFFFFFF, if it has no language)
+static uint32_t get_group_language(const pe_resource_viewer::resource_language_list& languages, uint32_t index)
+{
+    return index < languages.size() ? languages[index] : 0xFFFFFFFF;
+}
+
+//Returns data of icon or cursor listed in group, which was found by index in language directory
+//Icon or cursor of the language of its group is returned, if any; otherwise, the one with the same index
+static const std::string get_data_by_group_language(const pe_resource_viewer& res, pe_resource_viewer::resource_type type, uint32_t id, uint32_t language, uint32_t index)
+{
+    const pe_resource_viewer::resource_language_list languages(res.list_resource_languages(type, id));
+    if(std::find(languages.begin(), languages.end(), language) != languages.end())
+        return res.get_resource_data_by_id(language, type, id).get_data();
+
+    return res.get_resource_data_by_id(type, id, index).get_data();
+}
+
 resource_cursor_icon_reader::resource_cursor_icon_reader(const pe_resource_viewer& res)
     :res_(res)
 {}
@@ -88,6 +105,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
 
     //Get resource by name and index
     const std::string data = res_.get_resource_data_by_name(pe_resource_viewer::resource_icon_group, name, index).get_data();
+    const uint32_t language = get_group_language(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, name), index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -96,7 +114,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        ret += get_data_by_group_language(res_, pe_resource_viewer::resource_icon, group->Number, language, index);
     }
 
     return ret;
@@ -151,6 +169,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
 
     //Get resource by id and index
     const std::string data = res_.get_resource_data_by_id(pe_resource_viewer::resource_icon_group, id, index).get_data();
+    const uint32_t language = get_group_language(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, id), index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -159,7 +178,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        ret += get_data_by_group_language(res_, pe_resource_viewer::resource_icon, group->Number, language, index);
     }
 
     return ret;
@@ -304,7 +323,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         //Now read hotspot data from cursor data directory
         const std::string cursor = index == 0xFFFFFFFF
             ? res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data()
-            : res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data();
+            : get_data_by_group_language(res_, pe_resource_viewer::resource_cursor, group->Number, language, index);
         if(cursor.length() < 2 * sizeof(uint16_t))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
@@ -354,15 +373,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(const std::wst
 
     //Get resource by name and index
     const std::string resource_data = res_.get_resource_data_by_name(pe_resource_viewer::resource_cursor_group, name, index).get_data();
+    const uint32_t language = get_group_language(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, name), index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        ret += get_data_by_group_language(res_, pe_resource_viewer::resource_cursor, group->Number, language, index).substr(2 * sizeof(uint16_t));
     }
 
     return ret;
@@ -396,15 +416,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id(uint32_t id, uin
 
     //Get resource by ID and index
     const std::string resource_data = res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor_group, id, index).get_data();
+    const uint32_t language = get_group_language(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, id), index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        ret += get_data_by_group_language(res_, pe_resource_viewer::resource_cursor, group->Number, language, index).substr(2 * sizeof(uint16_t));
     }
 
     return ret;
-- 
2.43.0


From 22719b40f7e6e1d9168e9db713fa354b105f4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 76/85] fix: adding an icon or cursor file stored in the edited
 resources read freed memory

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index 38a38e5..b9c81f8 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -14,8 +14,11 @@ resource_cursor_icon_writer::resource_cursor_icon_writer(pe_resource_manager& re
 {}
 
 //Add icon helper
-void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const resource_data_info* group_icon_info /* or zero */, resource_directory_entry& new_icon_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp)
+void resource_cursor_icon_writer::add_icon(const std::string& icon_file_data, const resource_data_info* group_icon_info /* or zero */, resource_directory_entry& new_icon_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp)
 {
+    //Copy file data first: it can be owned by the resources that will be edited
+    const std::string icon_file(icon_file_data);
+
     //Check icon for correctness
     if(icon_file.length() < sizeof(ico_header))
         throw pe_exception("Incorrect resource icon", pe_exception::resource_incorrect_icon);
@@ -178,8 +181,11 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
 }
 
 //Add cursor helper
-void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, const resource_data_info* group_cursor_info /* or zero */, resource_directory_entry& new_cursor_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp)
+void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file_data, const resource_data_info* group_cursor_info /* or zero */, resource_directory_entry& new_cursor_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp)
 {
+    //Copy file data first: it can be owned by the resources that will be edited
+    const std::string cursor_file(cursor_file_data);
+
     //Check cursor for correctness
     if(cursor_file.length() < sizeof(cursor_header))
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
-- 
2.43.0


From c31b17a30d0197c1287b0928fca9470a3af01be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 77/85] fix: endless loop when a version block states a length
 of 65533 bytes or more

---
 src/pe_lib/resource_version_info_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index f316954..5dc2ebe 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -182,7 +182,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                     //Navigate to next string block
-                    string_pos += pe_utils::align_up(string_block->Length, sizeof(uint32_t));
+                    string_pos += pe_utils::align_up(static_cast<uint32_t>(string_block->Length), sizeof(uint32_t));
                 }
 
 #ifdef PE_BLISS_WINDOWS
@@ -192,7 +192,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                 //Navigate to next string table block
-                string_table_pos += pe_utils::align_up(string_table->Length, sizeof(uint32_t));
+                string_table_pos += pe_utils::align_up(static_cast<uint32_t>(string_table->Length), sizeof(uint32_t));
             }
         }
         else if(info_type == VarFileInfo) //If we encountered VarFileInfo
@@ -236,7 +236,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 }
 
                 //Navigate to next var block
-                var_table_pos += pe_utils::align_up(var_table->Length, sizeof(uint32_t));
+                var_table_pos += pe_utils::align_up(static_cast<uint32_t>(var_table->Length), sizeof(uint32_t));
             }
         }
         else
@@ -245,7 +245,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         }
 
         //Navigate to next element in root block
-        child_pos += pe_utils::align_up(block->Length, sizeof(uint32_t));
+        child_pos += pe_utils::align_up(static_cast<uint32_t>(block->Length), sizeof(uint32_t));
     }
 
     return ret;
-- 
2.43.0


From 46ca69d0a5f9a7fa1166c957577a6b6db49f7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 78/85] fix: cursor group read beyond its end when a single
 cursor is looked up

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 6d5d0d1..bd87f62 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -441,7 +441,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
     const cursor_header* info = reinterpret_cast<const cursor_header*>(cursor_group_resource_data.data());
 
     //Check resource data length
-    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group))
+    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group) * info->Count)
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
     //Iterate over all cursors listed in cursor group
-- 
2.43.0


From 4b5753facfdd663947db52454789c889f2c9368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 79/85] fix: version strings were silently shortened when
 running out of memory

---
 src/pe_lib/file_version_info.h     | 1 +
 src/pe_lib/version_info_editor.cpp | 1 +
 src/pe_lib/version_info_viewer.cpp | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/pe_lib/file_version_info.h b/src/pe_lib/file_version_info.h
index d32a15a..cd21d94 100644
--- a/src/pe_lib/file_version_info.h
+++ b/src/pe_lib/file_version_info.h
@@ -154,6 +154,7 @@ private:
     static const std::basic_string<T> get_version_string(uint32_t ms, uint32_t ls)
     {
         std::basic_stringstream<T> ss;
+        ss.exceptions(std::ios::badbit); //Running out of memory must not shorten the string
         ss << (ms >> 16) << static_cast<T>(L'.')
             << (ms & 0xFFFF) << static_cast<T>(L'.')
             << (ls >> 16) << static_cast<T>(L'.')
diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index ea19b9b..ea0d4a4 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -142,6 +142,7 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
     {
         //Erase string table (if exists)
         std::wstringstream ss;
+        ss.exceptions(std::ios::badbit); //Running out of memory must not shorten the string
         ss << std::hex
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
diff --git a/src/pe_lib/version_info_viewer.cpp b/src/pe_lib/version_info_viewer.cpp
index 9f8c7a3..132c8c6 100644
--- a/src/pe_lib/version_info_viewer.cpp
+++ b/src/pe_lib/version_info_viewer.cpp
@@ -77,6 +77,7 @@ const version_info_viewer::translation_list version_info_viewer::get_translation
     {
         //Create string representation of translation value
         std::wstringstream ss;
+        ss.exceptions(std::ios::badbit); //Running out of memory must not shorten the string
         ss << std::hex
             << std::setw(4) << std::setfill(L'0') << (*it).first
             << std::setw(4) << std::setfill(L'0') <<  (*it).second;
@@ -150,6 +151,7 @@ const version_info_viewer::translation_pair version_info_viewer::translation_fro
     {
         //Convert string to DWORD
         std::wstringstream ss;
+        ss.exceptions(std::ios::badbit); //Running out of memory must not shorten the string
         ss << std::hex << translation;
         ss >> translation_id;
     }
-- 
2.43.0


From 0607af896988cfa15fc87ce44af74106cf84d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 80/85] fix: 64-bit images created from scratch were marked as
 i386

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index dd1cb1c..604252c 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -20,7 +20,7 @@ void pe_properties_generic<PEClassType>::create_pe(uint32_t section_alignment, u
 {
     memset(&nt_headers_, 0, sizeof(nt_headers_));
     nt_headers_.Signature = 0x4550; //"PE"
-    nt_headers_.FileHeader.Machine = 0x14C; //i386
+    nt_headers_.FileHeader.Machine = PEClassType::Id == image_nt_optional_hdr64_magic ? 0x8664 /* x64 */ : 0x14C /* i386 */;
     nt_headers_.FileHeader.SizeOfOptionalHeader = sizeof(nt_headers_.OptionalHeader);
     nt_headers_.OptionalHeader.Magic = PEClassType::Id;
     nt_headers_.OptionalHeader.ImageBase = 0x400000;
-- 
2.43.0


From fef285db51604ae73406aae8d7799bcc3329d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 81/85] fix: first section could be added at an address past
 the end of the address space

---
 src/pe_lib/pe_base.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index db7a0f5..ab3a8ef 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -506,10 +506,16 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     }
     else
     {
+        const uint32_t wanted_address = s.get_virtual_address();
         s.set_virtual_address(
             s.get_virtual_address() == 0
             ? pe_utils::align_up(get_size_of_headers(), get_section_alignment())
             : pe_utils::align_up(s.get_virtual_address(), get_section_alignment()));
+
+        //Section must fit into address space
+        if(s.get_virtual_address() < wanted_address
+            || !pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment())))
+            throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
     }
 
     //Add section to the end of section list
-- 
2.43.0


From 2c58a36a3d11400b2d0d5a0e2b23d0277ebdcce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 82/85] fix: don't truncate file size to 32 bits when opening
 images

---
 src/pe_lib/pe_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index ab3a8ef..73f915f 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -942,7 +942,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             //Check virtual and raw section sizes and addresses
             if(s.get_virtual_address() + pe_utils::align_up(s.get_virtual_size(), get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment())
                 ||
-                pe_utils::align_down(s.get_pointer_to_raw_data(), get_file_alignment()) + s.get_size_of_raw_data() > static_cast<uint32_t>(filesize))
+                static_cast<std::streamoff>(pe_utils::align_down(s.get_pointer_to_raw_data(), get_file_alignment())) + s.get_size_of_raw_data() > filesize)
                 throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
 
     	    uint32_t adress_of_section = 0;
@@ -1006,7 +1006,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     {
         //Additionally, read data from the beginning of istream to size of headers
         file.seekg(0);
-        uint32_t size_of_headers = std::min<uint32_t>(get_size_of_headers(), static_cast<uint32_t>(filesize));
+        uint32_t size_of_headers = static_cast<uint32_t>(std::min<std::streamoff>(get_size_of_headers(), filesize));
 
         if(!sections_.empty())
         {
-- 
2.43.0


From 045fe1ef9b5c42bd227f7e9856341b29f58f5584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:48 +0000
Subject: [PATCH 83/85] fix: refuse to calculate entropy of stream which is
 positioned past its end

---
 src/pe_lib/entropy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/entropy.cpp b/src/pe_lib/entropy.cpp
index 939867d..fe8b8d7 100644
--- a/src/pe_lib/entropy.cpp
+++ b/src/pe_lib/entropy.cpp
@@ -32,7 +32,7 @@ double entropy_calculator::calculate_entropy(std::istream& file)
         length = pe_utils::get_file_size(file);
         length -= file.tellg();
 
-        if(!length) //Don't calculate entropy for empty buffers
+        if(length <= 0) //Don't calculate entropy for empty buffers
             throw pe_exception("Data length is zero", pe_exception::data_is_empty);
 
         //Count bytes
-- 
2.43.0


From 07dab97ef663184c2b483e398c9ec8bb8cc94442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 84/85] fix: count bytes with 64-bit counters when calculating
 entropy

---
 src/pe_lib/entropy.cpp | 8 ++++----
 src/pe_lib/entropy.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/entropy.cpp b/src/pe_lib/entropy.cpp
index fe8b8d7..2299c34 100644
--- a/src/pe_lib/entropy.cpp
+++ b/src/pe_lib/entropy.cpp
@@ -16,7 +16,7 @@ double entropy_calculator::calculate_entropy(const section& s)
 //Calculates entropy for istream (from current position of stream)
 double entropy_calculator::calculate_entropy(std::istream& file)
 {
-    uint32_t byte_count[256] = {0}; //Byte count for each of 255 bytes
+    uint64_t byte_count[256] = {0}; //Byte count for each of 255 bytes
 
     if(!file.good())
         throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
@@ -68,7 +68,7 @@ double entropy_calculator::calculate_entropy(std::istream& file)
 //Calculates entropy for data block
 double entropy_calculator::calculate_entropy(const char* data, size_t length)
 {
-    uint32_t byte_count[256] = {0}; //Byte count for each of 255 bytes
+    uint64_t byte_count[256] = {0}; //Byte count for each of 255 bytes
 
     if(!length) //Don't calculate entropy for empty buffers
         throw pe_exception("Data length is zero", pe_exception::data_is_empty);
@@ -83,7 +83,7 @@ double entropy_calculator::calculate_entropy(const char* data, size_t length)
 //Calculates entropy for this PE file (only section data)
 double entropy_calculator::calculate_entropy(const pe_base& pe)
 {
-    uint32_t byte_count[256] = {0}; //Byte count for each of 255 bytes
+    uint64_t byte_count[256] = {0}; //Byte count for each of 255 bytes
 
     size_t total_data_length = 0;
 
@@ -101,7 +101,7 @@ double entropy_calculator::calculate_entropy(const pe_base& pe)
 }
 
 //Calculates entropy from bytes count
-double entropy_calculator::calculate_entropy(const uint32_t byte_count[256], std::streamoff total_length)
+double entropy_calculator::calculate_entropy(const uint64_t byte_count[256], std::streamoff total_length)
 {
     double entropy = 0.; //Entropy result value
     //Calculate entropy
diff --git a/src/pe_lib/entropy.h b/src/pe_lib/entropy.h
index 397214e..4e1c1b7 100644
--- a/src/pe_lib/entropy.h
+++ b/src/pe_lib/entropy.h
@@ -25,6 +25,6 @@ private:
     entropy_calculator& operator=(const entropy_calculator&);
 
     //Calculates entropy from bytes count
-    static double calculate_entropy(const uint32_t byte_count[256], std::streamoff total_length);
+    static double calculate_entropy(const uint64_t byte_count[256], std::streamoff total_length);
 };
 }
-- 
2.43.0


From a67302d783894d1c5f8b2ccd92f3a2c32f526744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:41 +0000
Subject: [PATCH 85/85] fix: read resource entries with empty name placed at
 the end of section

---
 src/pe_lib/pe_resources.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 2b94d6d..1dca75a 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -368,20 +368,20 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
             //get directory name length
             uint16_t directory_name_length = pe.section_data_from_rva<uint16_t>(res_rva + nameEntry.NameOffset, section_data_virtual, true);
 
-            //Check name length
-            if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
+            //Check name length (empty name can be placed at the end of section)
+            if(directory_name_length != 0 && pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
                 < directory_name_length * sizeof(uint16_t) /* unicode */)
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
             //Set entry UNICODE name
             entry.set_name(std::wstring(
-                reinterpret_cast<const wchar_t*>(pe.section_data_from_rva(res_rva + dir_entry.NameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)),
+                reinterpret_cast<const wchar_t*>(pe.section_data_from_rva(res_rva + dir_entry.NameEntry.NameOffset, section_data_virtual, true) + sizeof(uint16_t)),
                 directory_name_length));
 #else
             //Set entry UNICODE name
             entry.set_name(pe_utils::from_ucs2(u16string(
-                reinterpret_cast<const unicode16_t*>(pe.section_data_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)),
+                reinterpret_cast<const unicode16_t*>(pe.section_data_from_rva(res_rva + nameEntry.NameOffset, section_data_virtual, true) + sizeof(uint16_t)),
                 directory_name_length)));
 #endif
         }
-- 
2.43.0

