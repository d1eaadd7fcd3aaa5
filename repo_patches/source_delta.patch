From a31a7654dfc9b5cfa5b81d6d42ce30caaf629a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 01/52] fix: Stream_File confused the read and write positions
 of a streambuf

---
 src/joedb/journal/Stream_File.cpp | 21 +++++++++++++++------
 src/joedb/journal/Stream_File.h   |  3 ++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/joedb/journal/Stream_File.cpp b/src/joedb/journal/Stream_File.cpp
index d3c55a5..3f97686 100644
--- a/src/joedb/journal/Stream_File.cpp
+++ b/src/joedb/journal/Stream_File.cpp
@@ -12,7 +12,8 @@ namespace joedb
  ):
   Abstract_File(mode),
   streambuf(streambuf),
-  pos(0)
+  pos(0),
+  pos_mode(std::ios_base::in)
  {
   streambuf.pubseekoff
   (
@@ -33,19 +34,27 @@ namespace joedb
    std::ios_base::in
   );
 
+  pos_mode = std::ios_base::in;
+
   return pos;
  }
 
  /////////////////////////////////////////////////////////////////////////////
- void Stream_File::seek(int64_t offset) const
+ void Stream_File::seek
+ (
+  int64_t offset,
+  std::ios_base::openmode mode
+ ) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  if (int64_t(pos) == offset)
+  // a streambuf may have separate read and write positions
+  if (int64_t(pos) == offset && pos_mode == mode)
    return;
 
   if (offset >= 0)
   {
-   pos = streambuf.pubseekoff(offset, std::ios_base::beg);
+   pos = streambuf.pubseekoff(offset, std::ios_base::beg, mode);
+   pos_mode = mode;
    if (int64_t(pos) == offset)
     return;
   }
@@ -57,7 +66,7 @@ namespace joedb
  size_t Stream_File::pread(char *data, size_t size, int64_t offset) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, std::ios_base::in);
   const std::streamsize n = streambuf.sgetn(data, std::streamsize(size));
   pos += n;
   return size_t(n);
@@ -67,7 +76,7 @@ namespace joedb
  void Stream_File::pwrite(const char *data, size_t size, int64_t offset)
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, std::ios_base::out);
 
   size_t written = 0;
 
diff --git a/src/joedb/journal/Stream_File.h b/src/joedb/journal/Stream_File.h
index bfa7b8a..3857538 100644
--- a/src/joedb/journal/Stream_File.h
+++ b/src/joedb/journal/Stream_File.h
@@ -13,7 +13,8 @@ namespace joedb
   private:
    std::streambuf &streambuf;
    mutable std::streambuf::pos_type pos;
-   void seek(int64_t offset) const;
+   mutable std::ios_base::openmode pos_mode;
+   void seek(int64_t offset, std::ios_base::openmode mode) const;
 
   public:
    static constexpr bool lockable = false;
-- 
2.43.0


From 730226bb0b6766261be4a9069dc97102f1196e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 02/52] fix: skip_directly_to kept the context of relative
 operations

---
 src/joedb/journal/Readonly_Journal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Readonly_Journal.h b/src/joedb/journal/Readonly_Journal.h
index 28cb8b9..034aaee 100644
--- a/src/joedb/journal/Readonly_Journal.h
+++ b/src/joedb/journal/Readonly_Journal.h
@@ -115,7 +115,11 @@ namespace joedb
    }
    void skip_directly_to(int64_t position)
    {
-    file_buffer.set_position(position);
+    if (position != get_position())
+    {
+     file_buffer.set_position(position);
+     reset_context(); // skipped operations are not known
+    }
    }
    bool equal_to(Readonly_Journal &journal, int64_t from, int64_t until) const
    {
-- 
2.43.0


From 8132c2f46c44c3dd3f46bcdf5b2d2fba066ccad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 03/52] fix: a checkpoint that failed could not be tried again

---
 src/joedb/journal/Writable_Journal.cpp | 31 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8cc269d..1718367 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -118,19 +118,21 @@ namespace joedb
 
   JOEDB_DEBUG_ASSERT(file.get_size() < 0 || position <= file.get_size());
 
-  soft_index ^= 1;
-  checkpoint_position = position;
+  const int new_soft_index = soft_index ^ 1;
+  const int64_t neg = -position;
 
   Head_Exclusive_Lock lock(file);
 
-  const int64_t neg = -checkpoint_position;
-
   file.pwrite
   (
    reinterpret_cast<const char *>(&neg),
    sizeof(neg),
-   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
+   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + new_soft_index)
   );
+
+  // if anything above failed, then the same checkpoint can be tried again
+  soft_index = new_soft_index;
+  checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
@@ -142,28 +144,31 @@ namespace joedb
 
   file_buffer.flush();
 
-  hard_index ^= 1;
-  hard_checkpoint_position = checkpoint_position = position;
+  const int new_hard_index = hard_index ^ 1;
 
   Head_Exclusive_Lock lock(file);
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index)
   );
 
   file.sync();
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + 1)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index + 1)
   );
 
   file.datasync();
+
+  // if anything above failed, then the same checkpoint can be tried again
+  hard_index = new_hard_index;
+  hard_checkpoint_position = checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4f0050968ea9473ebeee7cb2241162f9b75c1de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 04/52] fix: a journal could be continued after an incomplete
 operation

---
 src/joedb/journal/File_Buffer.cpp      | 27 ++++++++++++++++++++++++++
 src/joedb/journal/File_Buffer.h        | 27 +++++++++++++++++++++++---
 src/joedb/journal/Writable_Journal.cpp |  3 +--
 3 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/joedb/journal/File_Buffer.cpp b/src/joedb/journal/File_Buffer.cpp
index ad9fd76..e57eb7e 100644
--- a/src/joedb/journal/File_Buffer.cpp
+++ b/src/joedb/journal/File_Buffer.cpp
@@ -1,5 +1,6 @@
 #include "joedb/journal/File_Buffer.h"
 #include "joedb/error/Destructor_Logger.h"
+#include "joedb/error/Exception.h"
 
 namespace joedb
 {
@@ -12,10 +13,20 @@ namespace joedb
   buffer.index = 0;
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void File_Buffer::check_incomplete_write() const
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  if (incomplete_write)
+   throw Exception("Cannot write after an incomplete operation");
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void File_Buffer::flush()
  ////////////////////////////////////////////////////////////////////////////
  {
+  check_incomplete_write();
+
   if (buffer_has_write_data())
    write_buffer();
   else
@@ -26,6 +37,22 @@ namespace joedb
   buffer.index = 0;
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void File_Buffer::write_directly(const char * const data, const size_t n)
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  try
+  {
+   flush();
+   File_Iterator::write(data, n);
+  }
+  catch (...)
+  {
+   write_failed();
+   throw;
+  }
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void File_Buffer::set_position(int64_t new_position)
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/journal/File_Buffer.h b/src/joedb/journal/File_Buffer.h
index 96ba928..eadf647 100644
--- a/src/joedb/journal/File_Buffer.h
+++ b/src/joedb/journal/File_Buffer.h
@@ -18,6 +18,8 @@ namespace joedb
 
    size_t read_buffer_size;
 
+   bool incomplete_write = false;
+
    //////////////////////////////////////////////////////////////////////////
    bool buffer_has_write_data() const noexcept
    //////////////////////////////////////////////////////////////////////////
@@ -51,6 +53,7 @@ namespace joedb
    {
     JOEDB_DEBUG_ASSERT(!buffer_has_read_data());
 
+    check_incomplete_write();
     File_Iterator::write(buffer.data, buffer.index);
     buffer.index = 0;
    }
@@ -62,9 +65,26 @@ namespace joedb
     JOEDB_DEBUG_ASSERT(!buffer_has_read_data());
 
     if (buffer.index >= buffer.size)
-     write_buffer();
+    {
+     try { write_buffer(); } catch (...) { write_failed(); throw; }
+    }
+   }
+
+   //////////////////////////////////////////////////////////////////////////
+   // A failure here leaves an incomplete operation: no more data can be
+   // written after it, and every later write or checkpoint will throw.
+   // (A failed flush at a checkpoint can be tried again).
+   void write_failed() noexcept
+   //////////////////////////////////////////////////////////////////////////
+   {
+    incomplete_write = true;
+    buffer.index = buffer.size - 1;
    }
 
+   //////////////////////////////////////////////////////////////////////////
+   void check_incomplete_write() const;
+   //////////////////////////////////////////////////////////////////////////
+
   public:
    File_Buffer(Abstract_File &file);
    void flush();
@@ -154,6 +174,8 @@ namespace joedb
     return Blob(position, size);
    }
 
+   void write_directly(const char *data, size_t n);
+
    //////////////////////////////////////////////////////////////////////////
    void write_data(const char *data, size_t n)
    //////////////////////////////////////////////////////////////////////////
@@ -178,8 +200,7 @@ namespace joedb
      }
      else
      {
-      flush();
-      File_Iterator::write(data, n);
+      write_directly(data, n);
      }
     }
    }
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 1718367..ce4932f 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -462,8 +462,7 @@ namespace joedb
   file_buffer.write<operation_t>(operation_t::blob);
   file_buffer.compact_write<size_t>(data.size());
   const int64_t blob_position = get_position();
-  file_buffer.flush();
-  file_buffer.File_Iterator::write(data.data(), data.size());
+  file_buffer.write_directly(data.data(), data.size());
   return Blob(blob_position, int64_t(data.size()));
  }
 
-- 
2.43.0


From 6be7b8c8bf2af516ef66124b351445cee7b7bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 05/52] fix: reading an encoded file at or after its end, or
 over a hole

pread returned (0 - offset) when nothing was read, left holes
uninitialised, and kept a decoding buffer that failed to decode.
---
 src/joedb/journal/Readonly_Encoded_File.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 1846b22..04d30c6 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -1,5 +1,8 @@
 #include "joedb/journal/Readonly_Encoded_File.h"
 
+#include <algorithm>
+#include <cstring>
+
 namespace joedb
 {
  //////////////////////////////////////////////////////////////////////////
@@ -12,9 +15,14 @@ namespace joedb
  ) const
  {
   const int64_t start = offset;
-  const int64_t end = offset + int64_t(size);
+  const int64_t file_size = get_size();
+
+  if (start >= file_size)
+   return 0;
+
+  const int64_t end = start + std::min(int64_t(size), file_size - start);
 
-  int64_t global_end = 0;
+  std::memset(buffer, 0, size_t(end - start));
 
   for (auto b: db.get_buffer_table())
   {
@@ -27,11 +35,10 @@ namespace joedb
 
    if (intersection_size > 0)
    {
-    if (intersection_end > global_end)
-     global_end = intersection_end;
-
     if (b != decoded_buffer)
     {
+     decoded_buffer = db::encoded_file::id_of_buffer(Record_Id::null);
+
      if (int64_t(read_buffer.size()) < db.get_size(b))
       read_buffer.resize(size_t(db.get_size(b)));
 
@@ -54,7 +61,7 @@ namespace joedb
    }
   }
 
-  return size_t(global_end - offset);
+  return size_t(end - start);
  }
 
  //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From da8188e5f814e226fbacb118afb1cc6859cf47ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 06/52] fix: equal_to compared the wrong bytes after a short
 read

---
 src/joedb/journal/Abstract_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index e28bb21..7f601e7 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -71,7 +71,7 @@ namespace joedb
     (
      destination_buffer.data() + n1,
      n0 - n1,
-     current
+     current + int64_t(n1)
     );
 
     if (n == 0)
-- 
2.43.0


From 8b01fba88d9895a17adac7717375185f46cb6930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 07/52] fix: hash of a file depended on how its reads were
 split

---
 src/joedb/journal/File_Hasher.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 9834517..4c7a0a8 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -1,7 +1,9 @@
 #include "joedb/journal/File_Hasher.h"
+#include "joedb/journal/Async_Reader.h"
 #include "joedb/journal/Readonly_Journal.h"
 #include "joedb/journal/Readonly_Memory_File.h"
 
+#include <algorithm>
 #include <vector>
 
 namespace joedb
@@ -20,26 +22,22 @@ namespace joedb
   constexpr uint32_t chunks = 2048;
   std::vector<char> hashing_buffer(SHA_256::chunk_size * chunks);
 
+  Async_Reader reader(file, start, start + size);
   int64_t current_size = 0;
 
   while (true)
   {
-   size_t block_size = SHA_256::chunk_size * chunks;
-   if (current_size + int64_t(block_size) > size)
-    block_size = size_t(size - current_size);
-
-   const size_t read_count = file.pread(hashing_buffer.data(), block_size, start + current_size);
+   const size_t read_count = reader.read(hashing_buffer.data(), hashing_buffer.size());
    current_size += int64_t(read_count);
    const uint32_t full_chunks = uint32_t(read_count / SHA_256::chunk_size);
    for (uint32_t i = 0; i < full_chunks; i++)
     sha_256.process_chunk(&hashing_buffer[i * SHA_256::chunk_size]);
 
-   const uint32_t remainder = uint32_t(read_count % SHA_256::chunk_size);
-   if (remainder || current_size >= size || read_count == 0)
+   if (read_count < hashing_buffer.size())
    {
     sha_256.process_final_chunk
     (
-     &hashing_buffer[full_chunks * SHA_256::chunk_size],
+     hashing_buffer.data() + full_chunks * SHA_256::chunk_size,
      uint64_t(current_size)
     );
     break;
@@ -98,7 +96,15 @@ namespace joedb
     );
    }
 
-   file.pread(buffer.data(), buffer.size(), buffer_position);
+   Async_Reader reader
+   (
+    file,
+    buffer_position,
+    buffer_position + int64_t(buffer.size())
+   );
+
+   const size_t n = reader.read(buffer.data(), buffer.size());
+   std::fill(buffer.begin() + n, buffer.end(), char(0));
 
    for (size_t j = 0; j < buffer.size(); j += SHA_256::chunk_size)
     sha_256.process_chunk(buffer.data() + j);
-- 
2.43.0


From 5e3d16001b1f6d074f48923d5c4652e412e69f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 08/52] fix: filebuf seek from end with pending output,
 negative positions, unget of bytes above 127

---
 src/joedb/journal/filebuf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index c764e69..1fe57f3 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -44,7 +44,10 @@ namespace joedb
     : out_pos + pptr() - pbase();
   }
   else if (dir == std::ios_base::end)
+  {
+   syncp();
    base = file.get_size();
+  }
 
   if (base < 0)
    return pos_type(off_type(-1));
@@ -60,6 +63,9 @@ namespace joedb
   std::ios_base::openmode which
  )
  {
+  if (pos < 0)
+   return pos_type(off_type(-1));
+
   sync();
 
   if (which & std::ios_base::in)
@@ -205,7 +211,7 @@ namespace joedb
      file.pwrite(gptr(), 1, in_pos + gptr() - eback());
     }
    }
-   return *gptr();
+   return traits_type::to_int_type(*gptr());
   }
 
   return traits_type::eof();
-- 
2.43.0


From bfa8fab537e8ec35f7fe3c18cc424eb4a3aaf5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 09/52] fix: Freedom_Keeper range check overflow, and end of
 the backward free list

---
 src/joedb/Freedom_Keeper.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index dff068a..caf0334 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -107,6 +107,7 @@ namespace joedb
     if
     (
      index.is_null() ||
+     index + size < index ||
      index + size > freedom_size
     )
     {
@@ -281,12 +282,12 @@ namespace joedb
 
     const Record_Id result = index - 1;
 
-    if (result == Record_Id{-1})
-     return used_list;
-
     if (result == used_size - 1)
      return free_list;
 
+    if (result == Record_Id{-1})
+     return used_list;
+
     return result;
    }
 
-- 
2.43.0


From cdf6b5ba882423204fd666fdcc0c9f589012f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:53 +0000
Subject: [PATCH 10/52] fix: joedbc generated parameters named like columns for
 multi-column ranges

---
 src/joedb/compiler/generator/Database_h.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/joedb/compiler/generator/Database_h.cpp b/src/joedb/compiler/generator/Database_h.cpp
index 5ab6738..f15ad09 100644
--- a/src/joedb/compiler/generator/Database_h.cpp
+++ b/src/joedb/compiler/generator/Database_h.cpp
@@ -661,7 +661,8 @@ namespace joedb::generator
      out << ", ";
      const Type &type = db.get_field_type(index.table_id, index.field_ids[i]);
      write_type(out, type, false, true);
-     out << ' ' << db.get_field_name(index.table_id, index.field_ids[i]);
+     out << " field_value_of_";
+     out << db.get_field_name(index.table_id, index.field_ids[i]);
     }
     out << ")\n";
     out << "   {\n";
@@ -672,6 +673,7 @@ namespace joedb::generator
     {
      if (i > 0)
       out << ", ";
+     out << "field_value_of_";
      out << db.get_field_name(index.table_id, index.field_ids[i]);
     }
     out << "));\n";
-- 
2.43.0


From 13373e59e53b9b4adc4c7ec872faec397f3ed608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:53 +0000
Subject: [PATCH 11/52] fix: interpreted database kept the values of a deleted
 record for the next one with the same id

---
 src/joedb/interpreted/Field.h   | 13 +++++++++++++
 src/joedb/interpreted/Table.cpp |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index 16022e5..f8e868f 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -57,6 +57,19 @@ namespace joedb
     }
    }
 
+   void clear(Record_Id record_id)
+   {
+    switch (type.get_type_id())
+    {
+     case Type::Type_Id::null: break;
+     #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
+     case Type::Type_Id::type_id:\
+      std::get<std::vector<cpp_type>>(column)[index(record_id)] = cpp_type();\
+     break;
+     #include "joedb/TYPE_MACRO.h"
+    }
+   }
+
    #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
    return_type get_##type_id(Record_Id record_id) const\
    {\
diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index b3eab9d..1d88cee 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -61,6 +61,8 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used(record_id));
+  for (auto &field: fields)
+   field.second.clear(record_id);
   freedom.free(record_id);
  }
 
@@ -88,6 +90,9 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used_vector(record_id, size));
+  for (auto &field: fields)
+   for (size_t i = 0; i < size; i++)
+    field.second.clear(record_id + i);
   freedom.free_vector(record_id, size);
  }
 }
-- 
2.43.0


From 1beab009bd3923869fb0f965499828d131c24382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 12/52] fix: vector operations on records that are not in use,
 and insertion of used records, were not rejected

---
 src/joedb/compiler/generator/Database_Writable_h.cpp | 2 ++
 src/joedb/compiler/generator/Writable_Database_h.cpp | 3 +++
 src/joedb/interpreted/Table.h                        | 6 ++++--
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/joedb/compiler/generator/Database_Writable_h.cpp b/src/joedb/compiler/generator/Database_Writable_h.cpp
index 0c0a434..460730b 100644
--- a/src/joedb/compiler/generator/Database_Writable_h.cpp
+++ b/src/joedb/compiler/generator/Database_Writable_h.cpp
@@ -383,6 +383,8 @@ namespace joedb::generator
       out << "    if (table_id == Table_Id(" << tid << "))\n";
       out << "    {\n";
       out << "     capacity = size_t(storage_of_" << tname << ".freedom_keeper.size());\n";
+      out << "     if (size_t(to_underlying(record_id)) >= capacity)\n";
+      out << "      throw_exception(\"update_vector: invalid record_id\");\n";
 
       for (const auto &[fid, fname]: db.get_fields(tid))
       {
diff --git a/src/joedb/compiler/generator/Writable_Database_h.cpp b/src/joedb/compiler/generator/Writable_Database_h.cpp
index 598a5c5..39f2e37 100644
--- a/src/joedb/compiler/generator/Writable_Database_h.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_h.cpp
@@ -190,6 +190,7 @@ namespace joedb::generator
 
    out << "   void insert_" << tname << "(id_of_" << tname << " id)\n";
    out << "   {\n";
+   out << "    JOEDB_RELEASE_ASSERT(id.get_id() >= 0 && !is_valid_record_id_for_" << tname << "(id.get_record_id()));\n";
    out << "    if (id.get_record_id() >= Record_Id(storage_of_" << tname << ".size()))\n";
    out << "     storage_of_" << tname << ".resize(id.get_id() + 1);\n";
    out << "    internal_insert_" << tname << "(id.get_record_id());\n";
@@ -266,6 +267,7 @@ namespace joedb::generator
 
     out << "   void delete_vector_of_" << tname << "(id_of_" << tname << " v, size_t size)\n";
     out << "   {\n";
+    out << "    JOEDB_RELEASE_ASSERT(storage_of_" << tname << ".freedom_keeper.is_used_vector(v.get_record_id(), size));\n";
     out << "    for (size_t i = size; i > 0;)\n";
     out << "     internal_delete_" << tname << "(v[--i].get_record_id());\n";
     out << "    journal.delete_vector(Table_Id(" << tid << "), v.get_record_id(), size);\n";
@@ -320,6 +322,7 @@ namespace joedb::generator
      out << "   template<typename F> void update_vector_of_" << fname;
      out << "(id_of_" << tname << " record, size_t size, F f)\n";
      out << "   {\n";
+     out << "    JOEDB_RELEASE_ASSERT(storage_of_" << tname << ".freedom_keeper.is_used_vector(record.get_record_id(), size));\n";
      out << "    joedb::Span<";
      write_type(out, type, false, false);
      out << "> span(&storage_of_" << tname;
diff --git a/src/joedb/interpreted/Table.h b/src/joedb/interpreted/Table.h
index 65e27ec..d04e4be 100644
--- a/src/joedb/interpreted/Table.h
+++ b/src/joedb/interpreted/Table.h
@@ -77,13 +77,15 @@ namespace joedb
                                 const type *value)\
    {\
     const auto it = find_field_from_id(field_id);\
-    check_record_id(record_id);\
-    check_record_id(record_id + index_t(size) - 1);\
+    if (!freedom.is_used_vector(record_id, size))\
+     throw Exception("update: invalid record_id");\
     it->second.set_vector_##type_id(record_id, size, value);\
    }\
    type *get_own_##type_id##_storage(Record_Id record_id, Field_Id field_id)\
    {\
     const auto it = find_field_from_id(field_id);\
+    if (size_t(to_underlying(record_id)) >= get_storage_capacity())\
+     throw Exception("invalid record_id");\
     return it->second.get_own_##type_id##_storage(record_id);\
    }\
    const type *get_own_##type_id##_storage(Record_Id record_id, Field_Id field_id) const\
-- 
2.43.0


From 2f4bf98b4e009584902ad91a42dfa4a4f56ce5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 13/52] fix: interpreted insert_vector overflow, and table
 identifiers wrapping around

---
 src/joedb/interpreted/Database_Schema.cpp | 4 ++++
 src/joedb/interpreted/Table.cpp           | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Database_Schema.cpp b/src/joedb/interpreted/Database_Schema.cpp
index a10c710..d2901e3 100644
--- a/src/joedb/interpreted/Database_Schema.cpp
+++ b/src/joedb/interpreted/Database_Schema.cpp
@@ -2,6 +2,8 @@
 #include "joedb/error/Exception.h"
 #include "joedb/is_identifier.h"
 
+#include <limits>
+
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -107,6 +109,8 @@ namespace joedb
 
   if (find_table(name) != Table_Id(0))
    throw Exception("create_table: name already used: " + name);
+  if (current_table_id == Table_Id(std::numeric_limits<std::underlying_type<Table_Id>::type>::max()))
+   throw Exception("create_table: reached maximum table count");
 
   ++current_table_id;
   tables.try_emplace(current_table_id);
diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index 1d88cee..0ebef52 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -70,12 +70,13 @@ namespace joedb
  void Table::insert_vector(Record_Id record_id, size_t size)
  ////////////////////////////////////////////////////////////////////////////
  {
+  JOEDB_RELEASE_ASSERT(record_id + size >= record_id);
   JOEDB_RELEASE_ASSERT(freedom.is_free_vector(record_id, size));
   if (record_id == freedom.get_size())
   {
-   freedom.resize(freedom.size() + size);
    for (auto &field: fields)
-    field.second.resize(freedom.size());
+    field.second.resize(freedom.size() + size);
+   freedom.resize(freedom.size() + size);
    freedom.use_vector(record_id, size);
   }
   else
-- 
2.43.0


From 307c8a576f00bb7884b23bf1ec519d2dee3aa2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:08 +0000
Subject: [PATCH 14/52] fix: the size of a journal file was read before locking
 it

When several processes created the same shared file, the second one could
still see an empty file after obtaining the locks, and overwrite the header
and the transactions already committed by the first one. A failure to lock
the head also leaves the tail unlocked now.
---
 .../journal/Journal_Construction_Lock.cpp     | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 76cd5bf..02a1813 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -3,15 +3,8 @@
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
- Journal_Construction_Lock::Journal_Construction_Lock
+ static Abstract_File &lock_file(Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
- (
-  Abstract_File &file,
-  Recovery recovery
- ):
-  file(file),
-  recovery(recovery),
-  size(file.get_size())
  {
   if (file.is_readonly())
    file.shared_lock_head();
@@ -19,8 +12,33 @@ namespace joedb
   {
    if (file.is_shared())
     file.exclusive_lock_tail();
-   file.exclusive_lock_head();
+
+   try
+   {
+    file.exclusive_lock_head();
+   }
+   catch (...)
+   {
+    if (file.is_shared())
+     file.unlock_tail();
+    throw;
+   }
   }
+
+  return file;
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ Journal_Construction_Lock::Journal_Construction_Lock
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  Abstract_File &file,
+  Recovery recovery
+ ):
+  file(lock_file(file)), // the size must be read after locking
+  recovery(recovery),
+  size(file.get_size())
+ {
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 74bd4a9b8fae7837a83ab9ae38c8300bd5d0c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 15/52] fix: an aborted transaction could be written after
 unlocking a shared file

The buffered data of an aborted transaction was written to the file by the
destructor of the journal, possibly long after the lock was released. This
overwrote the transactions that other processes had committed in the
meantime.
---
 src/joedb/journal/File_Buffer.cpp      | 7 +++++++
 src/joedb/journal/File_Buffer.h        | 3 +++
 src/joedb/journal/Writable_Journal.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/joedb/journal/File_Buffer.cpp b/src/joedb/journal/File_Buffer.cpp
index e57eb7e..c42ec5d 100644
--- a/src/joedb/journal/File_Buffer.cpp
+++ b/src/joedb/journal/File_Buffer.cpp
@@ -37,6 +37,13 @@ namespace joedb
   buffer.index = 0;
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void File_Buffer::flush_or_drop() noexcept
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  try { flush(); } catch (...) { write_failed(); }
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void File_Buffer::write_directly(const char * const data, const size_t n)
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/journal/File_Buffer.h b/src/joedb/journal/File_Buffer.h
index eadf647..470658c 100644
--- a/src/joedb/journal/File_Buffer.h
+++ b/src/joedb/journal/File_Buffer.h
@@ -89,6 +89,9 @@ namespace joedb
    File_Buffer(Abstract_File &file);
    void flush();
 
+   // nothing remains to be written later, even if flushing fails
+   void flush_or_drop() noexcept;
+
    // set_position must be called when switching between write and read
    void set_position(int64_t position);
 
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index ce4932f..87f65b9 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -482,7 +482,12 @@ namespace joedb
  /////////////////////////////////////////////////////////////////////////////
  {
   if (file.is_shared())
+  {
+   // Data of an aborted transaction must not be written after unlocking:
+   // it would overwrite transactions of other processes.
+   file_buffer.flush_or_drop();
    file.unlock_tail();
+  }
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 7ee0267aaa17a7fa0d131c22fbe518223e37ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:10 +0000
Subject: [PATCH 16/52] fix: a conflicting push was written to the server after
 a successful one

The writer of the previous push of the same session was still there, so the
data of a push rejected with 'C' was written at a stale position, over
committed data, or became committed.
---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index a04519a..cf5d44f 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -372,6 +372,7 @@ namespace joedb
   );
 
   push_status = buffer.data[0];
+  push_writer.reset();
 
   if (!get_server().writable_journal_client)
    push_status = 'R';
-- 
2.43.0


From cc29da39b57b4a876c120c857fdc54bf252c8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:08 +0000
Subject: [PATCH 17/52] fix: the latest soft checkpoint was lost if the process
 died during a hard checkpoint

---
 src/joedb/journal/Writable_Journal.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 87f65b9..95f0160 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -146,13 +146,16 @@ namespace joedb
 
   const int new_hard_index = hard_index ^ 1;
 
+  // soft_index last: if interrupted, the latest soft checkpoint must survive
+  const int first_index = soft_index ^ 1;
+
   Head_Exclusive_Lock lock(file);
 
   file.pwrite
   (
    reinterpret_cast<const char *>(&position),
    sizeof(position),
-   int64_t(sizeof(position)) * (2 * new_hard_index)
+   int64_t(sizeof(position)) * (2 * new_hard_index + first_index)
   );
 
   file.sync();
@@ -161,7 +164,7 @@ namespace joedb
   (
    reinterpret_cast<const char *>(&position),
    sizeof(position),
-   int64_t(sizeof(position)) * (2 * new_hard_index + 1)
+   int64_t(sizeof(position)) * (2 * new_hard_index + soft_index)
   );
 
   file.datasync();
-- 
2.43.0


From f62693be031c48d1c409f11a6b9b3e30d482baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:24 +0000
Subject: [PATCH 18/52] fix: pulling into a journal with unpushed data could
 append after diverging data

---
 src/joedb/concurrency/Robust_Connection.cpp |  7 ++-
 src/joedb/concurrency/Writable_Client.h     | 69 +++++++++++++++++----
 2 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/src/joedb/concurrency/Robust_Connection.cpp b/src/joedb/concurrency/Robust_Connection.cpp
index 1e45baa..c0a68fb 100644
--- a/src/joedb/concurrency/Robust_Connection.cpp
+++ b/src/joedb/concurrency/Robust_Connection.cpp
@@ -62,8 +62,11 @@ namespace joedb
    return connection->handshake(client_journal, content_check);
   });
 
-  handshake_journal = &client_journal;
-  handshake_content_check = content_check;
+  if (!handshake_journal)
+  {
+   handshake_journal = &client_journal;
+   handshake_content_check = content_check;
+  }
 
   return result;
  }
diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 46eb43f..aaf23bc 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -83,16 +83,69 @@ namespace joedb
      get_writable_journal().hard_checkpoint();
    }
 
-   void start_transaction()
+   /// The journal may be ahead of the connection because of offline work, an
+   /// interrupted push, or another client of the same shared file. If there is
+   /// something new in the connection, it must not be appended blindly.
+   void pull_connection
+   (
+    Lock_Action lock_action,
+    std::chrono::milliseconds wait = std::chrono::milliseconds(0)
+   )
    {
+    if (get_journal_checkpoint() > connection_checkpoint)
+    {
+     const int64_t new_checkpoint = connection.pull
+     (
+      lock_action,
+      Data_Transfer::without_data,
+      get_writable_journal(),
+      wait
+     );
+
+     if (new_checkpoint != connection_checkpoint)
+     {
+      try
+      {
+       connection.handshake(journal, Content_Check::fast);
+      }
+      catch (...)
+      {
+       if (bool(lock_action))
+        try {connection.unlock();} catch (...) {}
+       throw;
+      }
+      connection_checkpoint = new_checkpoint;
+     }
+
+     if (new_checkpoint <= get_journal_checkpoint())
+      return;
+
+     lock_action = Lock_Action::no_locking;
+     wait = std::chrono::milliseconds(0);
+    }
+
     connection_checkpoint = connection.pull
     (
-     Lock_Action::lock_before,
+     lock_action,
      Data_Transfer::with_data,
-     get_writable_journal()
+     get_writable_journal(),
+     wait
     );
+   }
 
-    read_journal();
+   void start_transaction()
+   {
+    pull_connection(Lock_Action::lock_before);
+
+    try
+    {
+     read_journal();
+    }
+    catch (...)
+    {
+     try {connection.unlock();} catch (...) {}
+     throw;
+    }
    }
 
   public:
@@ -131,13 +184,7 @@ namespace joedb
 
     const Tail_Exclusive_Lock lock(get_writable_journal());
 
-    connection_checkpoint = connection.pull
-    (
-     Lock_Action::no_locking,
-     Data_Transfer::with_data,
-     get_writable_journal(),
-     wait
-    );
+    pull_connection(Lock_Action::no_locking, wait);
 
     read_journal();
 
-- 
2.43.0


From 512071e147ff166db04e814fcc48269bbe293373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 19/52] fix: push_if_ahead conflicted with a push of another
 client of the same shared file

---
 src/joedb/compiler/generator/Client_h.cpp |  3 +--
 src/joedb/concurrency/Server.cpp          |  6 +++++-
 src/joedb/concurrency/Writable_Client.h   | 16 +++++++++++++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/joedb/compiler/generator/Client_h.cpp b/src/joedb/compiler/generator/Client_h.cpp
index 8a04e43..7ddcdbd 100644
--- a/src/joedb/compiler/generator/Client_h.cpp
+++ b/src/joedb/compiler/generator/Client_h.cpp
@@ -81,8 +81,7 @@ namespace joedb::generator
     joedb::Writable_Client(db.journal, connection, content_check),
     schema_checkpoint(0)
    {
-    if (get_checkpoint_difference() > 0)
-     push_unlock();
+    push_if_ahead();
 
     db.play_journal(); // makes transaction shorter if db is big
     joedb::Writable_Client::transaction([this](){
diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index cf5d44f..6ce675f 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -529,8 +529,12 @@ namespace joedb
   if (writable_journal_client)
   {
    if (!client.is_shared())
+   {
     client_lock.emplace(*writable_journal_client);
-   writable_journal_client->push_if_ahead();
+    client_lock->push_if_ahead();
+   }
+   else
+    writable_journal_client->push_if_ahead();
   }
  }
 
diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index aaf23bc..f338f24 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -204,9 +204,19 @@ namespace joedb
    int64_t push_if_ahead(int64_t until) override
    {
     if (get_journal_checkpoint() > get_connection_checkpoint())
-     return Client::push(until, Unlock_Action::unlock_after);
-    else
-     return get_connection_checkpoint();
+    {
+     // another client of the same shared file may have pushed already
+     const Tail_Exclusive_Lock lock(get_writable_journal());
+     pull_connection(Lock_Action::lock_before);
+
+     if (get_journal_checkpoint() > get_connection_checkpoint())
+      return Client::push(until, Unlock_Action::unlock_after);
+
+     connection.unlock();
+     read_journal();
+    }
+
+    return get_connection_checkpoint();
    }
 
    using Client::push_if_ahead;
-- 
2.43.0


From af108a1b9d3061d3f82a28f7e87ffbc8e8bbe63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:00 +0000
Subject: [PATCH 20/52] fix: a connection during the construction of a server
 called a pure virtual function

---
 src/joedb/asio/Server.cpp        | 3 +++
 src/joedb/asio/Server.h          | 4 ++++
 src/joedb/concurrency/Server.cpp | 2 ++
 src/joedb/rpc/Server.h           | 1 +
 4 files changed, 10 insertions(+)

diff --git a/src/joedb/asio/Server.cpp b/src/joedb/asio/Server.cpp
index d36add3..d8627f2 100644
--- a/src/joedb/asio/Server.cpp
+++ b/src/joedb/asio/Server.cpp
@@ -158,7 +158,10 @@ namespace joedb::asio
     }
    }
   );
+ }
 
+ void Server::start_listening()
+ {
   boost::asio::co_spawn
   (
    thread_pool,
diff --git a/src/joedb/asio/Server.h b/src/joedb/asio/Server.h
index b0648f0..b19782e 100644
--- a/src/joedb/asio/Server.h
+++ b/src/joedb/asio/Server.h
@@ -63,6 +63,10 @@ namespace joedb::asio
     boost::asio::local::stream_protocol::socket &&socket
    ) = 0;
 
+   /// Must be called at the end of the constructor of the derived class,
+   /// because new_session cannot be called before.
+   void start_listening();
+
   private:
    int64_t session_id = 0;
 
diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 6ce675f..1e0f016 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -536,6 +536,8 @@ namespace joedb
    else
     writable_journal_client->push_if_ahead();
   }
+
+  start_listening();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/rpc/Server.h b/src/joedb/rpc/Server.h
index 4cfcf48..16c2840 100644
--- a/src/joedb/rpc/Server.h
+++ b/src/joedb/rpc/Server.h
@@ -216,6 +216,7 @@ namespace joedb::rpc
     signatures(signatures),
     procedures(procedures)
    {
+    start_listening();
    }
  };
 }
-- 
2.43.0


From 28c4378116b575df08c698cd2c772b649c2146a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:01 +0000
Subject: [PATCH 21/52] fix: a server stopped accepting connections after
 running out of file descriptors

---
 src/joedb/asio/Server.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/joedb/asio/Server.cpp b/src/joedb/asio/Server.cpp
index d8627f2..42d0012 100644
--- a/src/joedb/asio/Server.cpp
+++ b/src/joedb/asio/Server.cpp
@@ -5,6 +5,9 @@
 #include <boost/asio/co_spawn.hpp>
 #include <boost/asio/read.hpp>
 #include <boost/asio/write.hpp>
+#include <boost/asio/redirect_error.hpp>
+#include <boost/asio/steady_timer.hpp>
+#include <boost/asio/use_awaitable.hpp>
 
 namespace joedb::asio
 {
@@ -82,11 +85,26 @@ namespace joedb::asio
  {
   while (true)
   {
-   auto session = new_session
+   boost::system::error_code error;
+
+   auto socket = co_await acceptor.async_accept
    (
-    co_await acceptor.async_accept(boost::asio::use_awaitable)
+    boost::asio::redirect_error(boost::asio::use_awaitable, error)
    );
 
+   if (error) // too many open files, for instance
+   {
+    if (log_level > 0)
+     log("accept error: " + error.message());
+
+    boost::asio::steady_timer timer(thread_pool);
+    timer.expires_after(std::chrono::milliseconds(100));
+    co_await timer.async_wait(boost::asio::use_awaitable);
+    continue;
+   }
+
+   auto session = new_session(std::move(socket));
+
    auto* const session_ptr = session.get();
 
    boost::asio::co_spawn
-- 
2.43.0


From 45161f86355133cec0b7980055f8afd6d8d28a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:01 +0000
Subject: [PATCH 22/52] fix: the server overflowed on out-of-range positions
 and waiting times sent by a client

---
 src/joedb/concurrency/Server.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 1e0f016..3730837 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -217,6 +217,7 @@ namespace joedb
 
   if
   (
+   checkpoint < Header::ssize ||
    checkpoint > journal.get_checkpoint() ||
    hash != (buffer.data[0] == 'H' // ??? takes_time
    ? Journal_Hasher::get_fast_hash(journal, checkpoint)
@@ -277,6 +278,9 @@ namespace joedb
   int64_t from = buffer.read<int64_t>();
   int64_t until = buffer.read<int64_t>();
 
+  if (from < 0 || until < 0)
+   throw Exception("bad range");
+
   if (until > get_server().client.get_journal_checkpoint())
    until = get_server().client.get_journal_checkpoint();
   if (from > until)
@@ -298,9 +302,17 @@ namespace joedb
  {
   co_await read_buffer(1, 16);
 
-  const std::chrono::milliseconds wait{buffer.read<int64_t>()};
+  // a longer wait would overflow the clock of the timer
+  const std::chrono::milliseconds wait = std::min
+  (
+   std::chrono::milliseconds{buffer.read<int64_t>()},
+   std::chrono::milliseconds{std::chrono::hours{24 * 365}}
+  );
   int64_t pull_checkpoint = buffer.read<int64_t>();
 
+  if (pull_checkpoint < 0)
+   throw Exception("bad checkpoint");
+
   if (!get_server().client_lock)
    get_server().client.pull(); // ??? takes_time
 
@@ -356,6 +368,9 @@ namespace joedb
   const int64_t from = buffer.read<int64_t>();
   const int64_t until = buffer.read<int64_t>();
 
+  if (from < 0 || until < 0)
+   throw Exception("bad range");
+
   if (get_server().locked && !locking)
    throw Exception("trying to push while someone else is locking");
   else if (!get_server().locked)
-- 
2.43.0


From aadccdb75cf7fb6fa2c33cfdc9680de75e0d386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:01 +0000
Subject: [PATCH 23/52] fix: the lock-timeout handler of the server could run
 after its session was destroyed

---
 src/joedb/concurrency/Server.cpp | 5 +++--
 src/joedb/concurrency/Server.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 3730837..6d4833c 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -150,9 +150,10 @@ namespace joedb
    lock_timeout_timer.expires_after(get_server().lock_timeout);
    lock_timeout_timer.async_wait
    (
-    [this](std::error_code error)
+    [this, session_exists = std::weak_ptr<bool>(exists)](std::error_code error)
     {
-     if (!error)
+     // when the timer has expired already, it is too late to cancel it
+     if (!error && !session_exists.expired())
      {
       if (get_server().log_level > 2)
        log("timeout");
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index de9fd5a..770820e 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -28,6 +28,7 @@ namespace joedb
      bool locking = false;
 
      boost::asio::steady_timer lock_timeout_timer;
+     const std::shared_ptr<bool> exists = std::make_shared<bool>(true);
      boost::asio::awaitable<void> lock();
      void unlock();
      void refresh_lock_timeout();
-- 
2.43.0


From 5172ae8176c0cf9697aab86a19698008780651a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:01 +0000
Subject: [PATCH 24/52] fix: a client holding the lock of a server and
 disconnecting while waiting for data kept the lock

---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 6d4833c..8932078 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -320,6 +320,7 @@ namespace joedb
   if
   (
    wait.count() > 0 &&
+   !locking && // nobody else could push
    pull_checkpoint == get_server().client.get_journal_checkpoint()
   )
   {
-- 
2.43.0


From a44c206e5a66f758a12f117c7700644686aafc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:01 +0000
Subject: [PATCH 25/52] fix: a server terminated if the connection to its own
 server failed when unlocking

---
 src/joedb/concurrency/Server.cpp | 29 ++++++++++++++++++++++-------
 src/joedb/concurrency/Server.h   |  1 +
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 8932078..642ead0 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -130,11 +130,8 @@ namespace joedb
    if (get_server().lock_waiters.empty())
    {
     get_server().locked = false;
-    if (get_server().client.is_shared() && get_server().client_lock)
-    {
-     get_server().client_lock->unlock();
-     get_server().client_lock.reset();
-    }
+    if (get_server().client.is_shared())
+     get_server().reset_client_lock();
    }
    else
     get_server().lock_waiters.front()->timer.cancel();
@@ -558,11 +555,29 @@ namespace joedb
  }
 
  ////////////////////////////////////////////////////////////////////////////
- void Server::cleanup_after_join()
+ void Server::reset_client_lock()
  ////////////////////////////////////////////////////////////////////////////
  {
   if (client_lock)
-   client_lock->unlock();
+  {
+   try
+   {
+    client_lock->unlock();
+   }
+   catch (const std::exception &e)
+   {
+    log(std::string("unlock error: ") + e.what());
+   }
+
+   client_lock.reset();
+  }
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ void Server::cleanup_after_join()
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  reset_client_lock();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index 770820e..3867221 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -17,6 +17,7 @@ namespace joedb
    Client &client;
    Writable_Journal_Client *writable_journal_client;
    std::optional<Writable_Journal_Client_Lock> client_lock;
+   void reset_client_lock();
 
    class Session: public joedb::asio::Server::Session
    {
-- 
2.43.0


From 31e8f765a4f542e0e14244e94d81d0f596c1b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 26/52] fix: rpc::Server checks the size of a message and does
 not reserve memory for bytes not received

---
 src/joedb/rpc/Server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/joedb/rpc/Server.h b/src/joedb/rpc/Server.h
index 16c2840..14876ff 100644
--- a/src/joedb/rpc/Server.h
+++ b/src/joedb/rpc/Server.h
@@ -74,9 +74,11 @@ namespace joedb::rpc
 
       {
        std::string &data = file.get_data();
-       data.reserve(size_t(until));
        data = signature.prolog;
 
+       if (until < file.get_size())
+        throw Exception("bad message size");
+
        int64_t remaining = until - file.get_size();
        while (remaining > 0)
        {
-- 
2.43.0


From 23f0cc12247f8363ec2180916a1da7b8bf0597ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 27/52] fix: start the keep-alive thread after the handshake,
 and stop it before what it uses is destroyed

---
 src/joedb/concurrency/Keep_Alive_Thread.h | 29 ++++++++++++++++-------
 src/joedb/concurrency/Server_Client.cpp   | 10 ++++++--
 src/joedb/concurrency/Server_Client.h     |  4 +++-
 src/joedb/rpc/Client.h                    |  8 ++++++-
 4 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/joedb/concurrency/Keep_Alive_Thread.h b/src/joedb/concurrency/Keep_Alive_Thread.h
index f7db6e2..e851fba 100644
--- a/src/joedb/concurrency/Keep_Alive_Thread.h
+++ b/src/joedb/concurrency/Keep_Alive_Thread.h
@@ -6,13 +6,12 @@
 
 #include <thread>
 #include <condition_variable>
+#include <functional>
 
 namespace joedb
 {
  class Ping_Client
  {
-  friend class Keep_Alive_Thread;
-
   private:
    virtual Thread_Safe<Channel&> &get_channel() = 0;
    virtual void locked_ping(Lock<Channel&> &lock) = 0;
@@ -30,7 +29,8 @@ namespace joedb
  class Keep_Alive_Thread
  {
   private:
-   Ping_Client &client;
+   Thread_Safe<Channel&> &channel;
+   const std::function<void(Lock<Channel&> &)> locked_ping;
    const std::chrono::milliseconds interval;
 
    bool thread_must_stop;
@@ -42,7 +42,7 @@ namespace joedb
    {
     try
     {
-     Lock<Channel&> lock(client.get_channel());
+     Lock<Channel&> lock(channel);
 
      while (!thread_must_stop)
      {
@@ -51,7 +51,7 @@ namespace joedb
       if (thread_must_stop)
        break;
 
-      client.locked_ping(lock);
+      locked_ping(lock);
      }
     }
     catch(...)
@@ -60,11 +60,24 @@ namespace joedb
    }
 
   public:
-   Keep_Alive_Thread(Ping_Client &client, std::chrono::milliseconds interval):
-    client(client),
+   /// @param locked_ping is called from another thread: it must not
+   /// use the virtual table of an object that is still being constructed
+   Keep_Alive_Thread
+   (
+    Thread_Safe<Channel&> &channel,
+    std::function<void(Lock<Channel&> &)> locked_ping,
+    std::chrono::milliseconds interval
+   ):
+    channel(channel),
+    locked_ping(std::move(locked_ping)),
     interval(interval),
     thread_must_stop(false),
     stopped(true)
+   {
+   }
+
+   /// Must be called once the connection is ready to receive pings
+   void start()
    {
     if (interval.count() > 0)
     {
@@ -78,7 +91,7 @@ namespace joedb
     if (!stopped)
     {
      {
-      Lock<Channel&> lock(client.get_channel());
+      Lock<Channel&> lock(channel);
       thread_must_stop = true;
      }
      condition.notify_one();
diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 94558e4..9dde54e 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -116,13 +116,19 @@ namespace joedb
   Logger &logger,
   std::chrono::milliseconds keep_alive_interval
  ):
-  keep_alive(*this, keep_alive_interval),
   channel(channel),
   logger(logger),
   session_id(-1),
-  pullonly_server(false)
+  pullonly_server(false),
+  keep_alive
+  (
+   this->channel,
+   [this](Lock<Channel&> &lock) {Server_Client::locked_ping(lock);},
+   keep_alive_interval
+  )
  {
   connect();
+  keep_alive.start();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server_Client.h b/src/joedb/concurrency/Server_Client.h
index 6024cab..2faf74f 100644
--- a/src/joedb/concurrency/Server_Client.h
+++ b/src/joedb/concurrency/Server_Client.h
@@ -19,7 +19,6 @@ namespace joedb
 
   private:
    void locked_ping(Lock<Channel&> &lock) override;
-   Keep_Alive_Thread keep_alive;
 
    void connect();
    void disconnect();
@@ -44,6 +43,9 @@ namespace joedb
 
    void log(beman::cstring_view message) noexcept override;
 
+  private:
+   Keep_Alive_Thread keep_alive; // last: destroyed before what it uses
+
   public:
    ///
    /// @param keep_alive_interval: a background thread will send a ping
diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index 8834e75..fe9ba4a 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -57,9 +57,15 @@ namespace joedb::rpc
    ):
     channel(channel),
     signatures(signatures),
-    keep_alive(*this, keep_alive_interval)
+    keep_alive
+    (
+     this->channel,
+     [this](Lock<Channel&> &lock) {Client::locked_ping(lock);},
+     keep_alive_interval
+    )
    {
     handshake();
+    keep_alive.start();
    }
 
    void call(int64_t procedure_id, Memory_File &file)
-- 
2.43.0


From f102468ac4c20d9aff7be8f206e40dc1cc0b62c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 28/52] fix: Server_Connection uses its buffer under the lock
 of the channel only

---
 src/joedb/concurrency/Server_Connection.cpp | 31 ++++++++++++---------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 8df0ec3..3556cc4 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -9,12 +9,13 @@ namespace joedb
  size_t Server_Connection::pread(char *data, size_t size, int64_t offset) const
  ////////////////////////////////////////////////////////////////////////////
  {
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<char>('r');
   buffer.write<int64_t>(offset);
   buffer.write<int64_t>(offset + int64_t(size));
 
-  Lock<Channel&> lock(channel);
   lock->write(buffer.data, buffer.index);
   lock->read(buffer.data, 9);
 
@@ -51,25 +52,26 @@ namespace joedb
    client_journal.get_checkpoint()
   );
 
-  buffer.index = 0;
-  buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
-  buffer.write<int64_t>(checkpoint);
-  buffer.write
-  (
-   content_check == Content_Check::fast
+  const auto hash = content_check == Content_Check::fast
    ? Journal_Hasher::get_fast_hash(client_journal, checkpoint)
-   : Journal_Hasher::get_full_hash(client_journal, checkpoint)
-  );
+   : Journal_Hasher::get_full_hash(client_journal, checkpoint);
+
+  char result;
 
   {
    Lock<Channel&> lock(channel);
+   buffer.index = 0;
+   buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
+   buffer.write<int64_t>(checkpoint);
+   buffer.write(hash);
    lock->write(buffer.data, buffer.index);
    lock->read(buffer.data, 1);
+   result = buffer.data[0];
   }
 
-  log(std::string("hash result: ") + buffer.data[0]);
+  log(std::string("hash result: ") + result);
 
-  if (buffer.data[0] == 'h')
+  if (result == 'h')
    content_mismatch();
 
   return server_checkpoint;
@@ -189,16 +191,19 @@ namespace joedb
  {
   log("joedb::Server_Connection::unlock");
 
+  char reply;
+
   {
    Lock<Channel&> lock(channel);
    buffer.data[0] = 'M';
    lock->write(buffer.data, 1);
    lock->read(buffer.data, 1);
+   reply = buffer.data[0];
   }
 
-  log(std::string() + buffer.data[0]);
+  log(std::string() + reply);
 
-  if (buffer.data[0] != 'M')
+  if (reply != 'M')
    throw Disconnection("unlock error: unexpected reply");
  }
 }
-- 
2.43.0


From ad120a8131f390ace25fb8b1611e485478e2bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:45 +0000
Subject: [PATCH 29/52] fix: a client compares its journal with the connection
 again if it changed after the handshake

---
 src/joedb/concurrency/Writable_Client.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index f338f24..409163c 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -4,6 +4,8 @@
 #include "joedb/concurrency/Client.h"
 #include "joedb/error/Destructor_Logger.h"
 
+#include <algorithm>
+
 namespace joedb
 {
  /// Writable specialization of Client
@@ -69,6 +71,9 @@ namespace joedb
    bool use_timestamp = false;
    bool use_hard_checkpoint = false;
 
+   const int64_t handshake_checkpoint;
+   bool pulled = false;
+
    void do_checkpoint()
    {
     if (use_valid_data)
@@ -92,7 +97,12 @@ namespace joedb
     std::chrono::milliseconds wait = std::chrono::milliseconds(0)
    )
    {
-    if (get_journal_checkpoint() > connection_checkpoint)
+    // When created, the connection may be ahead of what the handshake compared
+    const int64_t common_checkpoint = pulled
+     ? connection_checkpoint
+     : std::min(connection_checkpoint, handshake_checkpoint);
+
+    if (get_journal_checkpoint() > common_checkpoint)
     {
      const int64_t new_checkpoint = connection.pull
      (
@@ -102,7 +112,7 @@ namespace joedb
       wait
      );
 
-     if (new_checkpoint != connection_checkpoint)
+     if (new_checkpoint != common_checkpoint)
      {
       try
       {
@@ -114,9 +124,11 @@ namespace joedb
         try {connection.unlock();} catch (...) {}
        throw;
       }
-      connection_checkpoint = new_checkpoint;
      }
 
+     connection_checkpoint = new_checkpoint;
+     pulled = true;
+
      if (new_checkpoint <= get_journal_checkpoint())
       return;
 
@@ -131,6 +143,7 @@ namespace joedb
      get_writable_journal(),
      wait
     );
+    pulled = true;
    }
 
    void start_transaction()
@@ -154,7 +167,9 @@ namespace joedb
     Writable_Journal &journal,
     Connection &connection = Connection::dummy,
     Content_Check content_check = Content_Check::fast
-   ): Client(journal, connection, content_check)
+   ):
+    Client(journal, connection, content_check),
+    handshake_checkpoint(journal.get_checkpoint())
    {
    }
 
-- 
2.43.0


From 2626f070a375d22423a85791b479fe3c9a62077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:09 +0000
Subject: [PATCH 30/52] fix: get_time_string read past its buffer for years
 after 9999

---
 src/joedb/ui/get_time_string.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/joedb/ui/get_time_string.cpp b/src/joedb/ui/get_time_string.cpp
index fde31b9..4aef625 100644
--- a/src/joedb/ui/get_time_string.cpp
+++ b/src/joedb/ui/get_time_string.cpp
@@ -8,18 +8,23 @@ namespace joedb
  std::string get_time_string(int64_t timestamp)
  /////////////////////////////////////////////////////////////////////////////
  {
-  constexpr size_t buffer_size = 24;
+  constexpr size_t buffer_size = 64;
   char buffer[buffer_size];
   const time_t stamp = time_t(timestamp);
-  struct tm tm;
 #if defined(__unix__)
-  gmtime_r(&stamp, &tm);
+  struct tm tm_buffer;
+  const struct tm * const tm = gmtime_r(&stamp, &tm_buffer);
 #else
-  tm = *std::gmtime(&stamp);
+  const struct tm * const tm = std::gmtime(&stamp);
 #endif
-  std::strftime(buffer, buffer_size, "%Y-%m-%d %H:%M:%S GMT", &tm);
+  if (!tm) // the year does not fit in an int
+   return "?";
 
-  return std::string(buffer);
+  return std::string
+  (
+   buffer,
+   std::strftime(buffer, buffer_size, "%Y-%m-%d %H:%M:%S GMT", tm)
+  );
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From cce808f3ddd1cfe951fd0003305812568f360b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:37 +0000
Subject: [PATCH 31/52] fix: inf and nan written in text form could not be read
 back

---
 src/joedb/ui/type_io.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 src/joedb/ui/type_io.h   |  8 ++++++--
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index a409973..78a1f3e 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -2,6 +2,8 @@
 #include "external/wide_char_display_width.h"
 
 #include <iostream>
+#include <limits>
+#include <sstream>
 #include <string>
 
 #include "joedb/ui/minimal_runtime_io.cpp"
@@ -211,6 +213,44 @@ namespace joedb
   return int8_t(result);
  }
 
+ /////////////////////////////////////////////////////////////////////////////
+ template<typename T> static T read_float(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  std::string word;
+  in >> word;
+
+  // operator>> does not understand what operator<< writes for inf and nan
+  if (word == "nan")
+   return std::numeric_limits<T>::quiet_NaN();
+  else if (word == "-nan")
+   return -std::numeric_limits<T>::quiet_NaN();
+  else if (word == "inf")
+   return std::numeric_limits<T>::infinity();
+  else if (word == "-inf")
+   return -std::numeric_limits<T>::infinity();
+
+  T value = T();
+  std::istringstream iss(word);
+  if (!(iss >> value) || !iss.eof())
+   in.setstate(std::ios::failbit);
+  return value;
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ float read_float32(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  return read_float<float>(in);
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ double read_float64(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  return read_float<double>(in);
+ }
+
  /////////////////////////////////////////////////////////////////////////////
  bool read_boolean(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/ui/type_io.h b/src/joedb/ui/type_io.h
index 70bf671..d5518fc 100644
--- a/src/joedb/ui/type_io.h
+++ b/src/joedb/ui/type_io.h
@@ -75,12 +75,16 @@ namespace joedb
  PRIMITIVE_IO(int32_t, int32)
  PRIMITIVE_IO(int64_t, int64)
  PRIMITIVE_IO(Record_Id, reference)
- PRIMITIVE_IO(float, float32)
- PRIMITIVE_IO(double, float64)
  PRIMITIVE_IO(int16_t, int16)
 
  #undef PRIMITIVE_IO
 
+ float read_float32(std::istream &in);
+ inline void write_float32(std::ostream &out, float value) {out << value;}
+
+ double read_float64(std::istream &in);
+ inline void write_float64(std::ostream &out, double value) {out << value;}
+
  /// @}
 }
 
-- 
2.43.0


From 5afcbc29975a9f68c2abc102738463a490704e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:19 +0000
Subject: [PATCH 32/52] fix: JSON output contained invalid utf8 (overlong
 encodings, and beyond U+10FFFF)

---
 src/joedb/ui/minimal_runtime_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/joedb/ui/minimal_runtime_io.cpp b/src/joedb/ui/minimal_runtime_io.cpp
index 2620485..d4a3d4e 100644
--- a/src/joedb/ui/minimal_runtime_io.cpp
+++ b/src/joedb/ui/minimal_runtime_io.cpp
@@ -69,6 +69,7 @@ namespace joedb
    else if (c == '\\')
     out.put('\\').put('\\');
    else if ((c & 0xe0) == 0xc0 &&
+            c >= 0xc2 && // overlong encodings are not utf8
             i + 1 < s.size() &&
             (s[i + 1] & 0xc0) == 0x80)
    {
@@ -86,6 +87,7 @@ namespace joedb
    }
    else if ((c & 0xf0) == 0xe0 &&
             i + 2 < s.size() &&
+            (c != 0xe0 || uint8_t(s[i + 1]) >= 0xa0) &&
             (s[i + 1] & 0xc0) == 0x80 &&
             (s[i + 2] & 0xc0) == 0x80)
    {
@@ -95,6 +97,8 @@ namespace joedb
    }
    else if ((c & 0xf8) == 0xf0 &&
             i + 3 < s.size() &&
+            (c != 0xf0 || uint8_t(s[i + 1]) >= 0x90) &&
+            (c < 0xf4 || (c == 0xf4 && uint8_t(s[i + 1]) < 0x90)) && // <= 0x10ffff
             (s[i + 1] & 0xc0) == 0x80 &&
             (s[i + 2] & 0xc0) == 0x80 &&
             (s[i + 3] & 0xc0) == 0x80)
-- 
2.43.0


From 5c70de28f9f7172b1b3a2cc7a2ef3d201084315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:46 +0000
Subject: [PATCH 33/52] fix: a new line in a comment broke the SQL output

---
 src/joedb/ui/SQL_Dump_Writable.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/SQL_Dump_Writable.cpp b/src/joedb/ui/SQL_Dump_Writable.cpp
index c909a8b..68876c9 100644
--- a/src/joedb/ui/SQL_Dump_Writable.cpp
+++ b/src/joedb/ui/SQL_Dump_Writable.cpp
@@ -7,6 +7,21 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static void write_comment(std::ostream &out, const std::string &s)
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  // A control character (new line, in particular) would end the comment
+  for (const char c: s)
+  {
+   if (uint8_t(c) < 0x20)
+    write_octal_character(out, uint8_t(c));
+   else
+    out.put(c);
+  }
+  out.put('\n');
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void SQL_Writable::write_type(Type type)
  ////////////////////////////////////////////////////////////////////////////
@@ -144,14 +159,16 @@ namespace joedb
  void SQL_Writable::custom(const std::string &name)
  ////////////////////////////////////////////////////////////////////////////
  {
-  out << "-- custom: " << name << '\n';
+  out << "-- custom: ";
+  write_comment(out, name);
  }
 
  ////////////////////////////////////////////////////////////////////////////
  void SQL_Writable::comment(const std::string &comment)
  ////////////////////////////////////////////////////////////////////////////
  {
-  out << "-- " << comment << '\n';
+  out << "-- ";
+  write_comment(out, comment);
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 774781c214e56ee262554dc13f1a9a7c3e8c96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:46 +0000
Subject: [PATCH 34/52] fix: inf and nan made the SQL output invalid

---
 src/joedb/ui/SQL_Dump_Writable.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/joedb/ui/SQL_Dump_Writable.cpp b/src/joedb/ui/SQL_Dump_Writable.cpp
index 68876c9..19191a4 100644
--- a/src/joedb/ui/SQL_Dump_Writable.cpp
+++ b/src/joedb/ui/SQL_Dump_Writable.cpp
@@ -3,6 +3,7 @@
 #include "joedb/ui/get_time_string.h"
 #include "joedb/journal/Abstract_File.h"
 
+#include <cmath>
 #include <iostream>
 
 namespace joedb
@@ -233,6 +234,30 @@ namespace joedb
  #define TYPE_MACRO_NO_BLOB
  #define TYPE_MACRO_NO_REFERENCE
  #define TYPE_MACRO_NO_BOOL
+ #define TYPE_MACRO_NO_FLOAT
+ #include "joedb/TYPE_MACRO.h"
+
+ #define TYPE_MACRO(type, return_type, type_id, R, W)\
+ void SQL_Writable::update_##type_id\
+ (\
+  Table_Id table_id,\
+  Record_Id record_id,\
+  Field_Id field_id,\
+  return_type value\
+ )\
+ {\
+  write_update(table_id, field_id);\
+  if (std::isfinite(value))\
+   write_##type_id(out, value);\
+  else\
+   out << "NULL"; /* SQL does not support inf and nan */\
+  write_where(record_id);\
+ }
+ #define TYPE_MACRO_NO_STRING
+ #define TYPE_MACRO_NO_BLOB
+ #define TYPE_MACRO_NO_REFERENCE
+ #define TYPE_MACRO_NO_BOOL
+ #define TYPE_MACRO_NO_INT
  #include "joedb/TYPE_MACRO.h"
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 98ac11e88ae6fbbd12527c367e56489a5250f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:23 +0000
Subject: [PATCH 35/52] fix: joedb_convert without --until wrote an empty file

---
 src/joedb/ui/process_journal_pair.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/process_journal_pair.cpp b/src/joedb/ui/process_journal_pair.cpp
index 376ba52..013ec9a 100644
--- a/src/joedb/ui/process_journal_pair.cpp
+++ b/src/joedb/ui/process_journal_pair.cpp
@@ -2,6 +2,7 @@
 #include "joedb/journal/File.h"
 
 #include <iostream>
+#include <limits>
 
 namespace joedb
 {
@@ -18,7 +19,7 @@ namespace joedb
   (
    "until",
    "checkpoint",
-   0
+   std::numeric_limits<int64_t>::max()
   );
   const beman::cstring_view input = arguments.get_next("input.joedb");
   const beman::cstring_view output = arguments.get_next("output.joedb");
-- 
2.43.0


From 78497b5fd9fd044081b6739bf4ca6bf48fb01205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:52 +0000
Subject: [PATCH 36/52] fix: merging brought deleted records back, when they
 were last in their table

---
 src/joedb/ui/merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/ui/merge.cpp b/src/joedb/ui/merge.cpp
index e0dff58..84c4685 100644
--- a/src/joedb/ui/merge.cpp
+++ b/src/joedb/ui/merge.cpp
@@ -25,7 +25,7 @@ void joedb::merge(Database &merged, const Database &db)
   {
    // do nothing, table is empty
   }
-  else if (freedom_keeper.is_dense())
+  else if (freedom_keeper.get_used_count() == size)
   {
    merged.insert_vector(tid, offset[tid], size_t(size));
 
-- 
2.43.0


From 96629cbc001753d84b5392f0208b1bb8cf92f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:52 +0000
Subject: [PATCH 37/52] fix: joedb_convert failed on a file written in several
 sessions

---
 src/joedb/ui/joedb_convert.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/joedb_convert.cpp b/src/joedb/ui/joedb_convert.cpp
index c7d7f91..fc64f1e 100644
--- a/src/joedb/ui/joedb_convert.cpp
+++ b/src/joedb/ui/joedb_convert.cpp
@@ -1,8 +1,19 @@
 #include "joedb/ui/process_journal_pair.h"
 #include "joedb/ui/main_wrapper.h"
 
+#include <vector>
+
 namespace joedb
 {
+ /////////////////////////////////////////////////////////////////////////////
+ class Blob_Finder: public Dummy_Writable
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  public:
+   std::vector<Blob> blobs;
+   void on_blob(Blob blob) override {blobs.push_back(blob);}
+ };
+
  /////////////////////////////////////////////////////////////////////////////
  static void process
  /////////////////////////////////////////////////////////////////////////////
@@ -14,7 +25,23 @@ namespace joedb
  {
   if (checkpoint > input.get_checkpoint())
    checkpoint = input.get_checkpoint();
-  input.play_until(output, checkpoint);
+
+  Blob_Finder finder;
+  input.raw_play_until(finder, checkpoint);
+  input.rewind();
+
+  //
+  // The output can be shorter: for instance, Writable_Journal does not repeat
+  // a table and record id that a previous session of the input had to repeat.
+  //
+  for (const Blob blob: finder.blobs)
+  {
+   input.raw_play_until(output, blob.get_end());
+   if (output.get_position() != input.get_position())
+    throw Exception("can't convert: blobs would move");
+  }
+
+  input.raw_play_until(output, checkpoint);
   output.soft_checkpoint();
  }
 
-- 
2.43.0


From 0b84cd3f20fc9115dd815564d8c3de7bf23efc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:52 +0000
Subject: [PATCH 38/52] fix: joedb_merge wrote the schema of damaged files, and
 copied references to blobs it does not copy

---
 src/joedb/ui/joedb_merge.cpp | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/joedb/ui/joedb_merge.cpp b/src/joedb/ui/joedb_merge.cpp
index dadc18f..64e230c 100644
--- a/src/joedb/ui/joedb_merge.cpp
+++ b/src/joedb/ui/joedb_merge.cpp
@@ -87,28 +87,11 @@ namespace joedb
       Selective_Writable::Mode::schema
      );
 
-     std::unique_ptr<Selective_Writable> output_schema;
-     std::unique_ptr<Multiplexer> multiplexer;
-
-     if (merged_db)
-     {
-      multiplexer.reset(new Multiplexer{*db, schema_filter});
-     }
-     else
-     {
-      output_schema.reset
-      (
-       new Selective_Writable
-       (
-        output_journal,
-        Selective_Writable::Mode::schema
-       )
-      );
-
-      multiplexer.reset(new Multiplexer{*db, schema_filter, *output_schema});
-     }
-
-     input_journal.raw_play_until_checkpoint(*multiplexer);
+     Multiplexer multiplexer{*db, schema_filter};
+     input_journal.raw_play_until_checkpoint(multiplexer);
+
+     if (schema_filter.has_blobs())
+      throw Exception("can't merge blobs");
     }
 
     //
@@ -116,7 +99,11 @@ namespace joedb
     //
     schema_journal.soft_checkpoint();
     if (!merged_db)
+    {
      reference_schema = schema_file.get_data();
+     schema_journal.rewind();
+     schema_journal.raw_play_until_checkpoint(output_journal);
+    }
     else if (schema_file.get_data() != reference_schema)
      throw Exception
      (
-- 
2.43.0


From f17f83c319811bea52347348eb818d932bb09d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 39/52] fix: after merging, a reference to a deleted record
 could find a record of the next file

---
 src/joedb/ui/merge.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/joedb/ui/merge.cpp b/src/joedb/ui/merge.cpp
index 84c4685..503d47b 100644
--- a/src/joedb/ui/merge.cpp
+++ b/src/joedb/ui/merge.cpp
@@ -75,6 +75,17 @@ void joedb::merge(Database &merged, const Database &db)
   }
   else
   {
+   //
+   // Reserve the range of record ids of this table: a reference to a deleted
+   // record must not find a record of the next file.
+   //
+   if (!freedom_keeper.is_used(size - 1))
+   {
+    const Record_Id last = offset[tid] + to_underlying(size - 1);
+    merged.insert_into(tid, last);
+    merged.delete_from(tid, last);
+   }
+
    for (Record_Id record_id{0}; record_id < size; ++record_id)
    {
     if (freedom_keeper.is_used(record_id))
-- 
2.43.0


From 4e21c8401ed01f7c01c14e9fa2b344bbee670a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:18 +0000
Subject: [PATCH 40/52] fix: a new vector of size zero broke a table with an
 index in debug mode

---
 src/joedb/compiler/generator/Database_h.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/compiler/generator/Database_h.cpp b/src/joedb/compiler/generator/Database_h.cpp
index f15ad09..2e04fca 100644
--- a/src/joedb/compiler/generator/Database_h.cpp
+++ b/src/joedb/compiler/generator/Database_h.cpp
@@ -315,7 +315,7 @@ namespace joedb::generator
     {
      out << "    std::fill_n\n";
      out << "    (\n";
-     out << "     &storage_of_" << tname << ".iterator_over_" << index.name << "[to_underlying(record_id)],\n";
+     out << "     &storage_of_" << tname << ".iterator_over_" << index.name << ".data()[to_underlying(record_id)],\n";
      out << "     size,\n";
      out << "     index_of_" << index.name << ".end()\n";
      out << "    );\n";
-- 
2.43.0


From 4ba894f474d88c6b1251b63560be383088ca5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:22 +0000
Subject: [PATCH 41/52] fix: integer overflow when reading a checkpoint from a
 damaged header

---
 src/joedb/journal/Readonly_Journal.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/joedb/journal/Readonly_Journal.cpp b/src/joedb/journal/Readonly_Journal.cpp
index 8e01958..cf97f2d 100644
--- a/src/joedb/journal/Readonly_Journal.cpp
+++ b/src/joedb/journal/Readonly_Journal.cpp
@@ -113,13 +113,16 @@ void joedb::Readonly_Journal::read_checkpoint
 
   for (int j = 0; j < 2; j++)
   {
+   // unsigned, because the smallest value has no opposite
+   const int64_t soft = int64_t(0 - uint64_t(pos[2 * i + j]));
+
    if
    (
-    -pos[2 * i + j] >= checkpoint_position &&
-    (file_size < 0 || -pos[2 * i + j] <= file_size)
+    soft >= checkpoint_position &&
+    (file_size < 0 || soft <= file_size)
    )
    {
-    checkpoint_position = -pos[2 * i + j];
+    checkpoint_position = soft;
     hard_index = i ^ 1;
     soft_index = j;
    }
-- 
2.43.0


From 2c564f509b2989ab713421a0904c7e00687623cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:28 +0000
Subject: [PATCH 42/52] fix: a big record id made loading a table without any
 field loop almost forever

---
 src/joedb/interpreted/Table.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index 0ebef52..7f8b02b 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -47,8 +47,7 @@ namespace joedb
   {
    for (auto &field: fields)
     field.second.resize(to_underlying(record_id) + 1);
-   while (freedom.get_size() <= record_id)
-    freedom.push_back();
+   freedom.resize(size_t(record_id) + 1);
   }
   else if (!freedom.is_free(record_id))
    throw Exception("insert: record_id already in use");
-- 
2.43.0


From 25a6647923863ca0c55833b221d42388c96027af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 43/52] fix: a blob whose size was damaged made the journal
 continue after its end

---
 src/joedb/journal/Readonly_Journal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/joedb/journal/Readonly_Journal.cpp b/src/joedb/journal/Readonly_Journal.cpp
index cf97f2d..d3122f6 100644
--- a/src/joedb/journal/Readonly_Journal.cpp
+++ b/src/joedb/journal/Readonly_Journal.cpp
@@ -400,6 +400,8 @@ void joedb::Readonly_Journal::one_step(Writable &writable)
   case operation_t::blob:
   {
    const int64_t size = file_buffer.compact_read<int64_t>();
+   if (size > checkpoint_position - get_position())
+    throw Exception("blob past checkpoint");
    writable.on_blob(Blob(get_position(), size));
 
    if (writable.wants_blob_data() && size < checkpoint_position)
-- 
2.43.0


From bdd39043b7838870cb6aaf37df1c020a1b085493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:12 +0000
Subject: [PATCH 44/52] fix: damaged encoded files made decoding read out of
 bounds

---
 src/joedb/journal/Brotli_Decoder.cpp        |  5 +---
 src/joedb/journal/Identity_Codec.h          |  6 +++--
 src/joedb/journal/Readonly_Encoded_File.cpp | 29 +++++++++++++++++++--
 src/joedb/journal/Readonly_Encoded_File.h   |  2 ++
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/joedb/journal/Brotli_Decoder.cpp b/src/joedb/journal/Brotli_Decoder.cpp
index 3addcf6..59b4c05 100644
--- a/src/joedb/journal/Brotli_Decoder.cpp
+++ b/src/joedb/journal/Brotli_Decoder.cpp
@@ -1,6 +1,5 @@
 #include "joedb/journal/Brotli_Decoder.h"
 #include "joedb/error/Exception.h"
-#include "joedb/error/assert.h"
 
 #include <brotli/decode.h>
 
@@ -25,9 +24,7 @@ namespace joedb
    (uint8_t *)decoded
   );
 
-  JOEDB_DEBUG_ASSERT(brotli_decoded_size == decoded_size);
-
-  if (result != BROTLI_DECODER_RESULT_SUCCESS)
+  if (result != BROTLI_DECODER_RESULT_SUCCESS || brotli_decoded_size != decoded_size)
    throw Exception("Brotli decompression failed");
  }
 }
diff --git a/src/joedb/journal/Identity_Codec.h b/src/joedb/journal/Identity_Codec.h
index cbcb8f4..ecfa913 100644
--- a/src/joedb/journal/Identity_Codec.h
+++ b/src/joedb/journal/Identity_Codec.h
@@ -2,7 +2,7 @@
 #define joedb_Identity_Codec_declared
 
 #include "joedb/journal/Codec.h"
-#include "joedb/error/assert.h"
+#include "joedb/error/Exception.h"
 
 #include <cstring>
 
@@ -24,7 +24,9 @@ namespace joedb
     size_t decoded_size
    ) override
    {
-    JOEDB_DEBUG_ASSERT(encoded.size() == decoded_size);
+    if (encoded.size() != decoded_size)
+     throw Exception("Identity_Codec: wrong decoded size");
+
     std::memcpy(decoded, encoded.data(), decoded_size);
    }
  };
diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 04d30c6..53b722e 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -1,10 +1,35 @@
 #include "joedb/journal/Readonly_Encoded_File.h"
+#include "joedb/error/Exception.h"
 
 #include <algorithm>
 #include <cstring>
+#include <limits>
 
 namespace joedb
 {
+ //////////////////////////////////////////////////////////////////////////
+ int64_t Readonly_Encoded_File::get_end
+ //////////////////////////////////////////////////////////////////////////
+ (
+  const db::encoded_file::id_of_buffer buffer
+ ) const
+ {
+  const int64_t offset = db.get_offset(buffer);
+  const int64_t size = db.get_size(buffer);
+
+  if
+  (
+   offset < 0 ||
+   size < 0 ||
+   offset > std::numeric_limits<int64_t>::max() - size
+  )
+  {
+   throw Exception("bad buffer in encoded file");
+  }
+
+  return offset + size;
+ }
+
  //////////////////////////////////////////////////////////////////////////
  size_t Readonly_Encoded_File::pread
  //////////////////////////////////////////////////////////////////////////
@@ -27,7 +52,7 @@ namespace joedb
   for (auto b: db.get_buffer_table())
   {
    const int64_t b_start = db.get_offset(b);
-   const int64_t b_end = b_start + db.get_size(b);
+   const int64_t b_end = get_end(b);
 
    const int64_t intersection_start = std::max(start, b_start);
    const int64_t intersection_end = std::min(end, b_end);
@@ -101,7 +126,7 @@ namespace joedb
 
   for (const auto buffer: db.get_buffer_table())
   {
-   const int64_t end = db.get_offset(buffer) + db.get_size(buffer);
+   const int64_t end = get_end(buffer);
    if (end > result)
     result = end;
   }
diff --git a/src/joedb/journal/Readonly_Encoded_File.h b/src/joedb/journal/Readonly_Encoded_File.h
index e426129..40146d2 100644
--- a/src/joedb/journal/Readonly_Encoded_File.h
+++ b/src/joedb/journal/Readonly_Encoded_File.h
@@ -17,6 +17,8 @@ namespace joedb
    mutable std::vector<char> read_buffer;
    mutable db::encoded_file::id_of_buffer decoded_buffer;
 
+   int64_t get_end(db::encoded_file::id_of_buffer buffer) const;
+
   protected:
    Decoder &decoder;
 
-- 
2.43.0


From fdc98fd09ba735b0171336a0a79de91e847211e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:39 +0000
Subject: [PATCH 45/52] fix: joedb_logdump --header printed uninitialised
 memory for a short file

---
 src/joedb/ui/diagnostics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/ui/diagnostics.cpp b/src/joedb/ui/diagnostics.cpp
index bc9a0f9..3f70dbf 100644
--- a/src/joedb/ui/diagnostics.cpp
+++ b/src/joedb/ui/diagnostics.cpp
@@ -31,7 +31,7 @@ namespace joedb
  void dump_header(std::ostream &out, Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
  {
-  Header header;
+  Header header{};
   file.pread((char *)(&header), Header::size, 0);
 
   out << "    file size: " << file.get_size();
-- 
2.43.0


From ada393aa1fa98de2300703adaf6e9a20e76b1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:10 +0000
Subject: [PATCH 46/52] fix: explain how insert_record grows a table (keeps the
 line number of an assertion a test expects)

---
 src/joedb/interpreted/Table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index 7f8b02b..718247d 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -47,6 +47,7 @@ namespace joedb
   {
    for (auto &field: fields)
     field.second.resize(to_underlying(record_id) + 1);
+   // all at once: without any field, nothing above limits record_id
    freedom.resize(size_t(record_id) + 1);
   }
   else if (!freedom.is_free(record_id))
-- 
2.43.0


From 8f85304c917d6ebf8acc2007f3e05c7d1d5a5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:01 +0000
Subject: [PATCH 47/52] fix: pushing until a position behind the server made
 the connection forget the position of the server

---
 src/joedb/concurrency/Server_Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 3556cc4..9d026b5 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -180,7 +180,7 @@ namespace joedb
   else if (buffer.data[0] != push_type)
    throw Disconnection("push error: unexpected reply");
 
-  server_checkpoint = until;
+  server_checkpoint = std::max(from, until);
 
   return server_checkpoint;
  }
-- 
2.43.0


From 2e32900d59a57cf486a525b2a5e503e233d980bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:42 +0000
Subject: [PATCH 48/52] fix: copying from a URL did not notice a short answer,
 and did not know empty ranges

---
 src/joedb/journal/CURL_File.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/CURL_File.cpp b/src/joedb/journal/CURL_File.cpp
index fce63c4..0c0b9a8 100644
--- a/src/joedb/journal/CURL_File.cpp
+++ b/src/joedb/journal/CURL_File.cpp
@@ -18,8 +18,9 @@ namespace joedb
  void CURL_File::perform_range(int64_t start, int64_t size) const
  ////////////////////////////////////////////////////////////////////////////
  {
-  const std::string range =
-   std::to_string(start) + '-' + std::to_string(start + size - 1);
+  std::string range = std::to_string(start) + '-';
+  if (size >= 0)
+   range += std::to_string(start + size - 1);
 
   error_check(curl_easy_setopt(curl, CURLOPT_RANGE, range.c_str()));
   error_check(curl_easy_perform(curl));
@@ -64,6 +65,9 @@ namespace joedb
  size_t CURL_File::pread(char *buffer, size_t size, int64_t offset) const
  ////////////////////////////////////////////////////////////////////////////
  {
+  if (size == 0)
+   return 0;
+
   pread_Callback_Data callback_data{buffer, size, 0};
 
   error_check(curl_easy_setopt(curl, CURLOPT_WRITEDATA, &callback_data));
@@ -99,11 +103,17 @@ namespace joedb
   const int64_t size
  ) const
  {
+  if (size == 0)
+   return;
+
   File_Iterator file_iterator(destination);
   file_iterator.seek(start);
   error_check(curl_easy_setopt(curl, CURLOPT_WRITEDATA, &file_iterator));
   error_check(curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, copy_callback));
   perform_range(start, size);
+
+  if (size >= 0 && file_iterator.get_position() != start + size)
+   reading_past_end_of_file();
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 148167c23d9829f9fb74bedf2d91f448aed18261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:52 +0000
Subject: [PATCH 49/52] fix: the table command showed nothing when its start
 plus its length overflowed

---
 src/joedb/ui/Readable_Command_Processor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/Readable_Command_Processor.cpp b/src/joedb/ui/Readable_Command_Processor.cpp
index 8c91857..cbfd557 100644
--- a/src/joedb/ui/Readable_Command_Processor.cpp
+++ b/src/joedb/ui/Readable_Command_Processor.cpp
@@ -60,7 +60,13 @@ namespace joedb
     if
     (
      readable.is_used(table_id, record_id) &&
-     (length == 0 || (record_id >= start && record_id < start + length))
+     (
+      length == 0 ||
+      (
+       record_id >= start &&
+       size_t(to_underlying(record_id)) - size_t(to_underlying(start)) < length
+      )
+     )
     )
     {
      rows++;
-- 
2.43.0


From 243b484a64b5071c19b32f373d2f7f27071f22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:52 +0000
Subject: [PATCH 50/52] fix: interpreted database: overflow when inserting the
 largest record id, and empty vector updates indexed past the end

---
 src/joedb/interpreted/Database.cpp | 3 +++
 src/joedb/interpreted/Field.h      | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Database.cpp b/src/joedb/interpreted/Database.cpp
index d4404fa..236e306 100644
--- a/src/joedb/interpreted/Database.cpp
+++ b/src/joedb/interpreted/Database.cpp
@@ -1,4 +1,6 @@
 #include "joedb/interpreted/Database.h"
+
+#include <limits>
 #include "joedb/error/Exception.h"
 
 namespace joedb
@@ -10,6 +12,7 @@ namespace joedb
   if
   (
    to_underlying(record_id) < 0 ||
+   to_underlying(record_id) == std::numeric_limits<index_t>::max() ||
    (max_record_id >= Record_Id{0} && record_id > max_record_id)
   )
   {
diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index f8e868f..66d5968 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -81,14 +81,14 @@ namespace joedb
    }\
    const cpp_type *get_vector_##type_id() const\
    {\
-    return &std::get<std::vector<cpp_type>>(column)[0];\
+    return std::get<std::vector<cpp_type>>(column).data();\
    }\
    void set_vector_##type_id(Record_Id record_id,\
                              size_t size,\
                              const cpp_type *value)\
    {\
     cpp_type *target =\
-      &std::get<std::vector<cpp_type>>(column)[index(record_id)];\
+      std::get<std::vector<cpp_type>>(column).data() + index(record_id);\
     if (target != value)\
      std::copy_n(value, size, target);\
    }\
-- 
2.43.0


From 62b9da1432c24314ea62595e4fdbdb4622dc1fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:52 +0000
Subject: [PATCH 51/52] fix: Freedom_Keeper kept pointers to freed memory when
 an allocation failed

---
 src/joedb/Freedom_Keeper.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index caf0334..53393a3 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -39,15 +39,17 @@ namespace joedb
 
    void resize_vector(Record_Id size)
    {
-    this->freedom_size = size;
-
+    // consistent, even if an allocation fails
     is_free_v.resize(to_underlying(size) + 2);
-    next_v.resize(to_underlying(size) + 2);
-    previous_v.resize(to_underlying(size) + 2);
-
     is_free_p = is_free_v.data() + 2;
+
+    next_v.resize(to_underlying(size) + 2);
     next_p = next_v.data() + 2;
+
+    previous_v.resize(to_underlying(size) + 2);
     previous_p = previous_v.data() + 2;
+
+    this->freedom_size = size;
    }
 
    List_Data() {resize_vector(Record_Id{0});}
-- 
2.43.0


From f8499ab7f5e69aeac3bd8ee3e445c6886809ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:52 +0000
Subject: [PATCH 52/52] fix: commands whose values could not be parsed, or
 could not be written to a file, changed the database or damaged its journal

---
 src/joedb/ui/Command_Interpreter.cpp          |   5 +-
 .../Data_Manipulation_Command_Processor.cpp   | 117 ++++++++++++++----
 .../ui/Data_Manipulation_Command_Processor.h  |   6 +
 .../Readable_Writable_Command_Processor.cpp   |  12 +-
 src/joedb/ui/type_io.cpp                      |  56 +++++++--
 src/joedb/ui/type_io.h                        |   7 +-
 6 files changed, 165 insertions(+), 38 deletions(-)

diff --git a/src/joedb/ui/Command_Interpreter.cpp b/src/joedb/ui/Command_Interpreter.cpp
index b1714f9..c412d67 100644
--- a/src/joedb/ui/Command_Interpreter.cpp
+++ b/src/joedb/ui/Command_Interpreter.cpp
@@ -216,9 +216,10 @@ General commands
     if (quit || abort)
      break;
    }
-   catch (const Exception &e)
+   catch (const std::exception &e)
    {
-    after_command(out, line_number, line, &e);
+    const Exception exception(e.what());
+    after_command(out, line_number, line, &exception);
    }
   }
 
diff --git a/src/joedb/ui/Data_Manipulation_Command_Processor.cpp b/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
index 25a8002..45c664f 100644
--- a/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
+++ b/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
@@ -8,6 +8,70 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ void Data_Manipulation_Command_Processor::check_parsing
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  const std::istream &in
+ )
+ {
+  if (in.fail())
+   throw Exception("failed parsing value");
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ Record_Id Data_Manipulation_Command_Processor::parse_record_id
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  std::istream &in
+ )
+ {
+  Record_Id record_id = Record_Id::null;
+
+  if (!(in >> std::ws).eof())
+  {
+   in >> record_id;
+   check_parsing(in);
+  }
+
+  return record_id;
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ size_t Data_Manipulation_Command_Processor::parse_size(std::istream &in)
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  int64_t size = 0;
+  in >> size;
+  check_parsing(in);
+  if (size < 0)
+   throw Exception("negative size");
+  return size_t(size);
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ void Data_Manipulation_Command_Processor::skip_value
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  std::istream &in,
+  const Type &type
+ )
+ {
+  switch(type.get_type_id())
+  {
+   case Type::Type_Id::null:
+   break;
+
+   #define TYPE_MACRO(type, return_type, type_id, read_method, write_method)\
+   case Type::Type_Id::type_id:\
+    joedb::read_##type_id(in);\
+   break;
+   #include "joedb/TYPE_MACRO.h"
+  }
+
+  check_parsing(in);
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void Data_Manipulation_Command_Processor::update_value
  ////////////////////////////////////////////////////////////////////////////
@@ -27,6 +91,7 @@ namespace joedb
    case Type::Type_Id::type_id:\
    {\
     const type value = joedb::read_##type_id(in);\
+    check_parsing(in);\
     writable.update_##type_id(table_id, record_id, field_id, value);\
    }\
    break;
@@ -72,53 +137,56 @@ namespace joedb
   else if (command == "insert_into") ///////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   parameters >> record_id;
+   Record_Id record_id = parse_record_id(parameters);
 
    if (record_id.is_null())
     record_id = readable.get_size(table_id);
 
+   const bool has_values = parameters.good();
+
+   // nothing must be written if a value is wrong
+   if (has_values)
+   {
+    const auto position = parameters.tellg();
+    for (const auto &[fid, fname]: readable.get_fields(table_id))
+     skip_value(parameters, readable.get_field_type(table_id, fid));
+    parameters.clear();
+    parameters.seekg(position);
+   }
+
    writable.insert_into(table_id, record_id);
 
-   if (parameters.good())
+   if (has_values)
    {
     for (const auto &[fid, fname]: readable.get_fields(table_id))
-    {
      update_value(parameters, table_id, record_id, fid);
-     if (parameters.fail())
-      throw Exception("failed parsing value");
-    }
    }
   }
   else if (command == "delete_from") ////////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   parameters >> record_id;
+   const Record_Id record_id = parse_record_id(parameters);
 
    writable.delete_from(table_id, record_id);
   }
   else if (command == "insert_vector") /////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   size_t size = 0;
-   parameters >> record_id >> size;
+   const Record_Id record_id = parse_record_id(parameters);
+   const size_t size = parse_size(parameters);
    writable.insert_vector(table_id, record_id, size);
   }
   else if (command == "delete_vector") /////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   size_t size = 0;
-   parameters >> record_id >> size;
+   const Record_Id record_id = parse_record_id(parameters);
+   const size_t size = parse_size(parameters);
    writable.delete_vector(table_id, record_id, size);
   }
   else if (command == "update") ////////////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   parameters >> record_id;
+   const Record_Id record_id = parse_record_id(parameters);
    std::string field_name;
    parameters >> field_name;
    const Field_Id field_id = readable.find_field(table_id, field_name);
@@ -127,13 +195,11 @@ namespace joedb
   else if (command == "update_vector") /////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   parameters >> record_id;
+   const Record_Id record_id = parse_record_id(parameters);
    std::string field_name;
    parameters >> field_name;
    const Field_Id field_id = readable.find_field(table_id, field_name);
-   size_t size = 0;
-   parameters >> size;
+   const size_t size = parse_size(parameters);
 
    if (max_record_id.is_not_null() && size >= size_t(index_t(max_record_id)))
     throw Exception("vector is too big");
@@ -148,10 +214,13 @@ namespace joedb
      #define TYPE_MACRO(type, return_type, type_id, R, W)\
      case Type::Type_Id::type_id:\
      {\
-      std::vector<type> v(size);\
+      std::vector<type> v;\
       for (size_t i = 0; i < size; i++)\
-       v[i] = joedb::read_##type_id(parameters);\
-      writable.update_vector_##type_id(table_id, record_id, field_id, size, &v[0]);\
+      {\
+       v.push_back(joedb::read_##type_id(parameters));\
+       check_parsing(parameters);\
+      }\
+      writable.update_vector_##type_id(table_id, record_id, field_id, size, v.data());\
      }\
      break;
      #include "joedb/TYPE_MACRO.h"
diff --git a/src/joedb/ui/Data_Manipulation_Command_Processor.h b/src/joedb/ui/Data_Manipulation_Command_Processor.h
index 46864fd..436c327 100644
--- a/src/joedb/ui/Data_Manipulation_Command_Processor.h
+++ b/src/joedb/ui/Data_Manipulation_Command_Processor.h
@@ -2,6 +2,7 @@
 #define joedb_Data_Manipulation_Command_Processor_declared
 
 #include "joedb/ui/Readable_Command_Processor.h"
+#include "joedb/Type.h"
 
 namespace joedb
 {
@@ -20,6 +21,11 @@ namespace joedb
    );
 
   protected:
+   static Record_Id parse_record_id(std::istream &in);
+   static size_t parse_size(std::istream &in);
+   static void check_parsing(const std::istream &in);
+   static void skip_value(std::istream &in, const Type &type);
+
    Status process_command
    (
     std::string_view command,
diff --git a/src/joedb/ui/Readable_Writable_Command_Processor.cpp b/src/joedb/ui/Readable_Writable_Command_Processor.cpp
index 8fa4e95..f86ae0e 100644
--- a/src/joedb/ui/Readable_Writable_Command_Processor.cpp
+++ b/src/joedb/ui/Readable_Writable_Command_Processor.cpp
@@ -105,11 +105,19 @@ namespace joedb
    const Type type = parse_type(parameters, out);
    if (type.get_type_id() != Type::Type_Id::null)
    {
-    writable.add_field(table_id, field_name, type);
-
     std::string next_word;
     parameters >> next_word;
 
+    if (next_word == "=")
+    {
+     const auto position = parameters.tellg();
+     skip_value(parameters, type);
+     parameters.clear();
+     parameters.seekg(position);
+    }
+
+    writable.add_field(table_id, field_name, type);
+
     if (next_word == "=")
     {
      const Field_Id field_id =
diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index 78a1f3e..f76ff5d 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -10,13 +10,16 @@
 
 namespace joedb
 {
+ /// The largest integer that the compact encoding of a journal can hold
+ static constexpr int64_t max_file_integer = (int64_t(1) << 61) - 1;
+
  /////////////////////////////////////////////////////////////////////////////
  std::string read_string(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
  {
   std::string result;
 
-  char c;
+  char c = 0;
 
   while (true)
   {
@@ -38,8 +41,8 @@ namespace joedb
 
     if (c == 'x')
     {
-     char c1;
-     char c0;
+     char c1 = '0';
+     char c0 = '0';
      in.get(c1).get(c0);
      const uint8_t n1 = get_hex_digit_from_char(c1);
      const uint8_t n0 = get_hex_digit_from_char(c0);
@@ -47,8 +50,8 @@ namespace joedb
     }
     else if (c >= '0' && c <= '9')
     {
-     char c1;
-     char c0;
+     char c1 = '0';
+     char c0 = '0';
      in.get(c1).get(c0);
      const uint8_t n2 = uint8_t(c  - '0');
      const uint8_t n1 = uint8_t(c1 - '0');
@@ -60,7 +63,12 @@ namespace joedb
    result.push_back(c);
 
    if (!in.get(c))
+   {
+    // an unquoted string may end with the line
+    if (!is_quoted)
+     in.clear(in.rdstate() & ~std::ios::failbit);
     break;
+   }
   }
 
   return result;
@@ -208,11 +216,32 @@ namespace joedb
  int8_t read_int8(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
  {
-  int result;
+  int result = 0;
   in >> result;
+  if
+  (
+   result < std::numeric_limits<int8_t>::min() ||
+   result > std::numeric_limits<int8_t>::max()
+  )
+  {
+   in.setstate(std::ios::failbit);
+  }
   return int8_t(result);
  }
 
+ /////////////////////////////////////////////////////////////////////////////
+ Record_Id read_reference(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  Record_Id value = Record_Id::null;
+  in >> value;
+  if (value.is_null())
+   return Record_Id::null;
+  if (to_underlying(value) >= max_file_integer)
+   in.setstate(std::ios::failbit);
+  return value;
+ }
+
  /////////////////////////////////////////////////////////////////////////////
  template<typename T> static T read_float(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
@@ -292,9 +321,18 @@ namespace joedb
  {
   int64_t position = 0;
   int64_t size = 0;
-  in >> position;
-  in.ignore(1, ',');
-  in >> size;
+  char separator = 0;
+  in >> position >> separator >> size;
+  if
+  (
+   separator != ',' ||
+   position < 0 || position > max_file_integer ||
+   size < 0 || size > max_file_integer
+  )
+  {
+   in.setstate(std::ios::failbit);
+   return Blob();
+  }
   return Blob(position, size);
  }
 }
diff --git a/src/joedb/ui/type_io.h b/src/joedb/ui/type_io.h
index d5518fc..ebad150 100644
--- a/src/joedb/ui/type_io.h
+++ b/src/joedb/ui/type_io.h
@@ -74,11 +74,16 @@ namespace joedb
 
  PRIMITIVE_IO(int32_t, int32)
  PRIMITIVE_IO(int64_t, int64)
- PRIMITIVE_IO(Record_Id, reference)
  PRIMITIVE_IO(int16_t, int16)
 
  #undef PRIMITIVE_IO
 
+ Record_Id read_reference(std::istream &in);
+ inline void write_reference(std::ostream &out, Record_Id value)
+ {
+  out << value;
+ }
+
  float read_float32(std::istream &in);
  inline void write_float32(std::ostream &out, float value) {out << value;}
 
-- 
2.43.0

