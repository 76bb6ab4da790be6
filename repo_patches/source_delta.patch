From c9ba112a01dbedc86eeace58b21a39208c6dc22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 01/96] fix: reload history after pruning so that positions
 match the stored lines

---
 clink/lib/src/history_db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 85a3e9c..5bef3b7 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1547,7 +1547,10 @@ void history_db::load_rl_history(bool can_clean)
     // history file.
     if (can_clean && m_use_master_bank)
     {
-        if (compact())
+        // Reload if the master bank was rewritten, or if lines were pruned;
+        // otherwise m_index_map and the Readline history are out of sync.
+        const size_t num_lines = m_index_map.size();
+        if (compact() || m_index_map.size() != num_lines)
             load_internal();
     }
 
-- 
2.43.0


From da957cfd7828ed1a15517441d5a1532aa19a4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 02/96] fix: timestamp of a removed history line is not given
 to the next line

---
 clink/lib/src/history_db.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 5bef3b7..a525760 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -739,6 +739,11 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
         {
             if (!eating_ctag)
                 ++m_deleted;
+            // A timestamp preceding a skipped line belongs to the skipped line.
+            if (timestamp)
+                timestamp->clear();
+            if (timestamp_id)
+                *timestamp_id = 0;
             continue;
         }
 
-- 
2.43.0


From e860363e7628495306ff9b2bc34775e157b09208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 03/96] fix: compacting history with a limit and unique lines
 no longer loses every line

---
 clink/lib/src/history_db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index a525760..8ead8c3 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1058,8 +1058,8 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     size_t start = 0;
     if (0 < limit && limit < lines_to_keep.size())
     {
-        for (start = lines_to_keep.size(); limit && start--;)
-            if (lines_to_keep[start].get())
+        for (start = lines_to_keep.size(); limit && start > 0;)
+            if (lines_to_keep[--start].get())
                 --limit;
     }
 
-- 
2.43.0


From 6d0a19dc0e524fbdffd7f72785c50d825c1e9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 04/96] fix: removals made after the history was cleared by any
 session take effect

---
 clink/lib/src/history_db.cpp | 43 ++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 8ead8c3..879b9dc 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1576,19 +1576,44 @@ void history_db::clear()
 
     DIAG("... clearing history\n");
 
-    for_each_bank([&] (uint32 bank_index, write_lock& lock)
+    if (m_bank_handles[bank_master])
     {
-        DIAG("... ... %s bank\n", bank_index == bank_master ? "master" : "session");
+        DIAG("... ... master bank\n");
+
+        bank_handles master_handles = get_bank(bank_master);
+        master_handles.m_handle_removals = nullptr; // Don't redirect removals.
+        write_lock lock(master_handles);
 
         lock.clear();
-        if (bank_index == bank_master)
+        m_master_ctag.clear();
+        m_master_ctag.generate_new_tag();
+        lock.add(m_master_ctag.get());
+
+        // Pending removals in any session refer to lines that are gone now.
+        // The removals files need the new concurrency tag, otherwise removals
+        // the sessions make from now on would be ignored.
+        str<280> removals;
+        for_each_session([&](str_base& path, bool local)
         {
-            m_master_ctag.clear();
-            m_master_ctag.generate_new_tag();
-            lock.add(m_master_ctag.get());
-        }
-        return true;
-    });
+            removals = path.c_str();
+            removals << ".removals";
+            if (local || os::get_path_type(removals.c_str()) != os::path_type_file)
+                return;
+            if (void* handle = make_removals_file(removals.c_str(), m_master_ctag.get()))
+            {
+                SetEndOfFile(handle);
+                CloseHandle(handle);
+            }
+        });
+    }
+
+    if (m_bank_handles[bank_session])
+    {
+        DIAG("... ... session bank\n");
+
+        write_lock lock(get_bank(bank_session));
+        lock.clear();
+    }
 
     m_index_map.clear();
     m_master_len = 0;
-- 
2.43.0


From ef66424dc93ebc2d2a1aa2278b45823bf5018cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 05/96] fix: session history is merged exactly once when
 several sessions end at the same time

---
 clink/lib/src/history_db.cpp | 44 +++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 879b9dc..e2f32be 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1215,14 +1215,15 @@ history_db::history_db(const char* path, int32 id, bool use_master_bank)
 //------------------------------------------------------------------------------
 history_db::~history_db()
 {
-    // Close alive handle
-    if (m_alive_file)
-        CloseHandle(m_alive_file);
-
     // Close all but the master bank. We're going to append to the master one.
     for (int32 i = 1; i < sizeof_array(m_bank_handles); ++i)
         m_bank_handles[i].close();
 
+    // Close alive handle.  Only after the session bank is closed, otherwise
+    // another instance could reap the session file but be unable to delete it.
+    if (m_alive_file)
+        CloseHandle(m_alive_file);
+
     reap();
 
     m_bank_handles[bank_master].close();
@@ -1240,12 +1241,18 @@ void history_db::reap()
 
     for_each_session([&](str_base& path, bool local)
     {
-        path << "~";
-        if (os::get_path_type(path.c_str()) == os::path_type_file)
-            if (!os::unlink(path.c_str())) // abandoned alive files will unlink
-                return;
+        auto is_alive = [&path]()
+        {
+            path << "~";
+            const bool alive = (os::get_path_type(path.c_str()) == os::path_type_file &&
+                                !os::unlink(path.c_str())); // abandoned alive files will unlink
+            path.truncate(path.length() - 1);
+            return alive;
+        };
+
+        if (is_alive())
+            return;
 
-        path.truncate(path.length() - 1);
         DIAG("... reap session file '%s'\n", path.c_str());
 
         if (local)
@@ -1257,6 +1264,21 @@ void history_db::reap()
         removals = path.c_str();
         removals << ".removals";
 
+        // Hold the master lock until the session files are deleted.  Otherwise
+        // several instances could each append the lines from the session file.
+        // WARNING: ALWAYS LOCK MASTER BEFORE SESSION!
+        bank_handles master_handles = get_bank(bank_master);
+        master_handles.m_handle_removals = nullptr; // Don't redirect removals.
+        write_lock dest(master_handles);
+
+        // Keep the files if there is nowhere to copy the lines.
+        if (m_use_master_bank && !dest)
+            return;
+
+        // A new session may have adopted the files while waiting for the lock.
+        if (is_alive())
+            return;
+
         if (!m_use_master_bank)
         {
             // Don't copy; only delete.
@@ -1272,10 +1294,6 @@ void history_db::reap()
                 DIAG("... reap session file '%s'\n", removals.c_str());
 
             {
-                // WARNING: ALWAYS LOCK MASTER BEFORE SESSION!
-                bank_handles master_handles = get_bank(bank_master);
-                master_handles.m_handle_removals = nullptr; // Don't redirect removals.
-                write_lock dest(master_handles);
                 read_lock src(reap_handles);
                 if (src && dest)
                 {
-- 
2.43.0


From a3f618f4ada1ab2ffcf1c533ed72055c66b90ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 06/96] fix: session files are opened under the master history
 lock so that another session cannot reap or retag them meanwhile

---
 clink/lib/src/history_db.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index e2f32be..f98801d 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1371,15 +1371,27 @@ void history_db::initialise(str_base* error_message)
     assert(!m_bank_handles[bank_session].m_handle_lines);
     assert(!m_bank_handles[bank_session].m_handle_removals);
 
-    m_bank_handles[bank_session].m_handle_lines = open_file(path.c_str(), m_bank_error[bank_session]);
-    make_open_error(error_message, bank_session);
-    if (m_use_master_bank && g_dupe_mode.get() == 2) // 'erase_prev'
     {
-        str<280> removals;
-        removals << path << ".removals";
-        DIAG("... removals file '%s'\n", removals.c_str());
+        // Files from a terminated session with the same id can already exist.
+        // Hold the master lock while opening the files, so that they are not
+        // reaped at the same time, and so that the tag stays up to date.
+        read_lock lock(get_bank(bank_master));
+        if (lock)
+        {
+            m_master_ctag.clear();
+            extract_ctag(lock, m_master_ctag);
+        }
+
+        m_bank_handles[bank_session].m_handle_lines = open_file(path.c_str(), m_bank_error[bank_session]);
+        make_open_error(error_message, bank_session);
+        if (m_use_master_bank && g_dupe_mode.get() == 2) // 'erase_prev'
+        {
+            str<280> removals;
+            removals << path << ".removals";
+            DIAG("... removals file '%s'\n", removals.c_str());
 
-        m_bank_handles[bank_session].m_handle_removals = make_removals_file(removals.c_str(), m_master_ctag.get());
+            m_bank_handles[bank_session].m_handle_removals = make_removals_file(removals.c_str(), m_master_ctag.get());
+        }
     }
 
     reap(); // collects orphaned history files.
-- 
2.43.0


From 2fb2b72537612c1d2d314cd0f02e038790fff6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 07/96] fix: a history line and its line terminator are written
 together

---
 clink/lib/src/history_db.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index f98801d..ce3830b 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -789,8 +789,11 @@ line_id_impl write_lock::add(const char* line)
     const DWORD offset = SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
     if (offset == INVALID_SET_FILE_POINTER)
         return line_id_impl();
-    WriteFile(m_handle_lines, line, int32(strlen(line)), &written, nullptr);
-    WriteFile(m_handle_lines, "\n", 1, &written, nullptr);
+    // Write the line and its terminator together, so that the line cannot end up
+    // unterminated (and be joined with the next line) if the process is ended.
+    str_moveable tmp(line);
+    tmp << "\n";
+    WriteFile(m_handle_lines, tmp.c_str(), tmp.length(), &written, nullptr);
     if (offset >= c_max_line_id.offset)
         return c_max_line_id;
     return line_id_impl(offset);
-- 
2.43.0


From db52db6c2b434b00fd1a25ba5bc88d6770875407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 08/96] fix: a removals file is emptied before it gets a new
 tag

---
 clink/lib/src/history_db.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index ce3830b..8980802 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -157,11 +157,16 @@ static void* open_file(const char* path, DWORD& err, bool if_exists=false)
 }
 
 //------------------------------------------------------------------------------
-static void* make_removals_file(const char* path, const char* ctag)
+static void* make_removals_file(const char* path, const char* ctag, bool truncate=false)
 {
     void* handle = open_file(path);
     if (handle)
     {
+        // Truncate before writing the ctag, so that old removals can never be
+        // mistaken for belonging to the new ctag.
+        if (truncate)
+            SetEndOfFile(handle);
+
         DWORD written;
         DWORD len = DWORD(strlen(ctag));
         WriteFile(handle, ctag, len, &written, nullptr);
@@ -1632,11 +1637,8 @@ void history_db::clear()
             removals << ".removals";
             if (local || os::get_path_type(removals.c_str()) != os::path_type_file)
                 return;
-            if (void* handle = make_removals_file(removals.c_str(), m_master_ctag.get()))
-            {
-                SetEndOfFile(handle);
+            if (void* handle = make_removals_file(removals.c_str(), m_master_ctag.get(), true/*truncate*/))
                 CloseHandle(handle);
-            }
         });
     }
 
@@ -1799,11 +1801,10 @@ bool history_db::compact(bool force, bool uniq, int32 _limit)
     for (const auto& r : removals_files)
     {
         assert(os::get_path_type(r.m_file.c_str()) == os::path_type_file);
-        void* handle = make_removals_file(r.m_file.c_str(), m_master_ctag.get());
 
-        // Truncate file immedately after the ctag to keep the file in a
+        // Truncate the file before writing the new ctag to keep the file in a
         // consistent state even while being rewritten.
-        SetEndOfFile(handle);
+        void* handle = make_removals_file(r.m_file.c_str(), m_master_ctag.get(), true/*truncate*/);
 
         // Look up the ids and write the new ids for ones that were kept.
         for (const auto& id : r.m_lines)
-- 
2.43.0


From f1147ef952841a977494805dc2b93573c687245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 09/96] fix: the parent of a rooted path without a drive keeps
 the root

---
 clink/core/src/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 8161318..385f578 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -630,7 +630,7 @@ bool to_parent(str_base& out, str_base* child)
 
     // Find end of drive or UNC root plus separator(s).
     uint32 start = uint32(past_drive(out.c_str()) - out.c_str());
-    if (start && out[start - 1] == ':')
+    if (!start || out[start - 1] == ':')
     {
         while (is_separator(out[start]))
             ++start;
-- 
2.43.0


From f379b7dd4537c4dd43091b9004f59edaa1262208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 10/96] fix: normalising a path removes a name that starts with
 a dot when .. follows it

---
 clink/core/src/path.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 385f578..eee5e66 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -219,6 +219,8 @@ void normalise(char* in_out, int32 sep)
                     continue;
                 }
             }
+            else
+                ++piece_count;
         }
         else
             ++piece_count;
-- 
2.43.0


From d55ec0854094a8ecc82595bf06c17983c9b04499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 11/96] fix: converting text into a fixed size buffer never
 stores part of a character

---
 clink/core/src/str_convert.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/clink/core/src/str_convert.cpp b/clink/core/src/str_convert.cpp
index 0670a6a..5e3351f 100644
--- a/clink/core/src/str_convert.cpp
+++ b/clink/core/src/str_convert.cpp
@@ -16,6 +16,7 @@ struct builder
                 builder(TYPE* data, int32 max_length);
                 ~builder()                            { if (start && start <= end) *write = '\0'; }
     bool        truncated() const                     { return (start && write >= end); }
+    bool        fits(int32 n) const                   { return (!start || n <= end - write); }
     int32       get_written() const                   { return int32(write - start); }
     builder&    operator << (int32 value);
     TYPE*       write;
@@ -98,7 +99,8 @@ int32 to_utf8(char* out, int32 max_count, wstr_iter& iter)
     builder<char> builder(out, max_count);
 
     int32 c;
-    while (!builder.truncated() && (c = iter.next()))
+    const wchar_t* ptr = iter.get_pointer();
+    for (; !builder.truncated() && (c = iter.next()); ptr = iter.get_pointer())
     {
         if (c < 0x80)
         {
@@ -111,6 +113,13 @@ int32 to_utf8(char* out, int32 max_count, wstr_iter& iter)
         n += c >= (1 << 11);
         n += c >= (1 << 16);
 
+        // Never store part of a character.
+        if (!builder.fits(n))
+        {
+            iter.reset_pointer(ptr);
+            break;
+        }
+
         // Collect the bytes of the encoding.
         char out_chars[4];
         switch (n)
@@ -206,8 +215,18 @@ int32 to_utf16(wchar_t* out, int32 max_count, str_iter& iter)
     builder<wchar_t> builder(out, max_count);
 
     int32 c;
-    while (!builder.truncated() && (c = iter.next()))
+    const char* ptr = iter.get_pointer();
+    for (; !builder.truncated() && (c = iter.next()); ptr = iter.get_pointer())
+    {
+        // Never store half of a surrogate pair.
+        if (c > 0xffff && !builder.fits(2))
+        {
+            iter.reset_pointer(ptr);
+            break;
+        }
+
         builder << c;
+    }
 
     return builder.get_written();
 }
-- 
2.43.0


From cec1295c91e417fdf24fd8c9dbb9857cba23f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 12/96] fix: wildcards match repeated separators after a star
 like after other characters

---
 clink/core/include/core/match_wild.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clink/core/include/core/match_wild.h b/clink/core/include/core/match_wild.h
index 15c24d1..b970d2e 100644
--- a/clink/core/include/core/match_wild.h
+++ b/clink/core/include/core/match_wild.h
@@ -127,6 +127,14 @@ back_track:
                 }
                 file.next();
                 pattern.next();
+                // Advance past path separators (consider "\\\\" and "\" equal).
+                if (path::is_separator(c))
+                {
+                    while (path::is_separator(pattern.peek()))
+                        pattern.next();
+                    while (path::is_separator(file.peek()))
+                        file.next();
+                }
             }
             if (match_everything != yes && path::is_separator(d))
             {
-- 
2.43.0


From 3e05f96ad6c15eaba97c668df1d6ba11372e9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 13/96] fix: normalising a device path keeps both leading
 separators

---
 clink/core/src/path.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index eee5e66..c780dd8 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -146,7 +146,10 @@ void normalise(char* in_out, int32 sep)
 
 #if defined(PLATFORM_WINDOWS)
     if (is_separator(in_out[0]) && is_separator(in_out[1]) && in_out[2] == '.' && is_separator(in_out[3]))
+    {
         dots = false; // Device namespace does not normalize . or .. in paths.
+        in_out += 3; // Preserve the 2 leading separators.
+    }
     else
     {
         const char* past = past_drive(in_out);
-- 
2.43.0


From e4e8b881dd3464a3ab8f6a113040387375a86e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 14/96] fix: normalising a UNC path with repeated separators no
 longer repeats parts of it

---
 clink/core/src/path.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index c780dd8..ab7b755 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -167,6 +167,11 @@ void normalise(char* in_out, int32 sep)
                 ++in_out;
             ++write;
         }
+        if (write < in_out)
+        {
+            memmove(write, in_out, strlen(in_out) + 1);
+            in_out = write;
+        }
     }
 #endif
 
-- 
2.43.0


From 52f57a71fe084e22e31bd2539e3a8f021a18058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 15/96] fix: a key sequence resolves to shorter chords and
 chords beyond ASCII with the right keys and parameters

---
 clink/lib/src/bind_resolver.cpp | 79 ++++++++++++++++++++-------------
 clink/lib/src/bind_resolver.h   |  5 +--
 clink/lib/src/binder.cpp        |  2 +-
 3 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index 9f6cf59..987d68d 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -97,11 +97,6 @@ void bind_resolver::set_group(int32 group)
     m_group = group;
     m_node_index = group;
     m_pending_input = true;
-
-    m_params.clear();
-    m_param_accumulator = 0;
-    m_param_len = 0;
-    m_pending_param = false;
 }
 
 //------------------------------------------------------------------------------
@@ -119,13 +114,6 @@ void bind_resolver::reset()
 
     m_group = group;
     m_node_index = m_group;
-
-    // The placement new operator should have reset these.
-    assert(m_params.count() == 0);
-    assert(m_params.length() == 0);
-    assert(m_param_accumulator == 0);
-    assert(m_param_len == 0);
-    assert(m_pending_param == false);
 }
 
 //------------------------------------------------------------------------------
@@ -156,23 +144,7 @@ bool bind_resolver::step_impl(uint8 key)
     if (!next)
         return true;
 
-    auto node = m_binder.get_node(next);
-    if (node.has_params)
-    {
-        assert(key >= '0' && key <= '9');
-        m_param_accumulator *= 10;
-        m_param_accumulator += key - '0';
-        m_param_len++;
-        m_pending_param = true;
-    }
-    else if (m_pending_param)
-    {
-        m_params.add(m_param_accumulator, m_param_len);
-        m_param_accumulator = 0;
-        m_param_len = 0;
-        m_pending_param = false;
-    }
-
+    const auto& node = m_binder.get_node(next);
     m_node_index = next;
     return (node.child == 0);
 }
@@ -210,11 +182,14 @@ bind_resolver::binding bind_resolver::next()
         // a valid bind (at the point of call).
         if (node.bound)
         {
-            const int32 key_index = m_tail + node.depth + m_params.length() - 1;
+            bind_params params;
+            collect_params(node.depth, params);
+
+            const int32 key_index = m_tail + node.depth + params.length() - 1;
             assertimplies(node.key, 0 <= key_index);
             assertimplies(node.key, key_index < m_key_count);
-            if (!node.key || (key_index >= 0 && node.key == m_keys[key_index]))
-                return binding(this, node_index, m_params);
+            if (!node.key || (key_index >= 0 && node.key == uint8(m_keys[key_index])))
+                return binding(this, node_index, params);
         }
     }
 
@@ -223,6 +198,46 @@ bind_resolver::binding bind_resolver::next()
     return binding();
 }
 
+//------------------------------------------------------------------------------
+// Collects the params from the first DEPTH nodes of the path that was followed.
+// Trying to match a longer chord may have read more params than a shorter chord
+// contains.
+void bind_resolver::collect_params(int32 depth, bind_params& params) const
+{
+    int32 node_index = m_group;
+    uint32 accumulator = 0;
+    uint8 len = 0;
+    for (int32 i = m_tail; i < m_key_count; ++i)
+    {
+        const uint8 key = m_keys[i];
+        const int32 next = m_binder.find_child(node_index, key);
+        if (!next)
+            break;
+
+        if (next != node_index)
+        {
+            if (len)
+                params.add(accumulator, len);
+            accumulator = 0;
+            len = 0;
+            if (--depth < 0)
+                return;
+        }
+
+        if (m_binder.get_node(next).has_params)
+        {
+            accumulator *= 10;
+            accumulator += key - '0';
+            len++;
+        }
+
+        node_index = next;
+    }
+
+    if (len)
+        params.add(accumulator, len);
+}
+
 //------------------------------------------------------------------------------
 int32 bind_resolver::is_bound(const char* seq, int32 len) const
 {
diff --git a/clink/lib/src/bind_resolver.h b/clink/lib/src/bind_resolver.h
index 1bc7896..bf506fc 100644
--- a/clink/lib/src/bind_resolver.h
+++ b/clink/lib/src/bind_resolver.h
@@ -61,15 +61,12 @@ public:
 private:
     void                claim(binding& binding);
     bool                step_impl(uint8 key);
+    void                collect_params(int32 depth, bind_params& params) const;
     const binder&       m_binder;
     unsigned short      m_node_index = 1;
     unsigned short      m_group = 1;
     bool                m_pending_input = false;
     uint8               m_tail = 0;
-    bind_params         m_params;
-    unsigned short      m_param_accumulator = 0;
-    uint8               m_param_len = 0;
-    bool                m_pending_param = false;
     uint8               m_key_count = 0;
     char                m_keys[16];
 };
diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 2a0232c..fc6ea9b 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -294,7 +294,7 @@ int32 binder::is_bound(uint32 group, const char* seq, int32 len) const
 
                 // Check to see if where we're currently at a node in the tree
                 // that is a valid bind (at the point of call).
-                if (node.bound && (!node.key || node.key == *seq))
+                if (node.bound && (!node.key || node.key == uint8(*seq)))
                 {
                     if (node.key || !ctrl_or_ext)
                         return true;
-- 
2.43.0


From 9ab53e4d04e2fb345d28c1a2d90354214296a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 16/96] fix: a bright default color with a background color
 does not become white

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index de6b095..a1aa3e4 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -914,7 +914,7 @@ bool parse_color(const char* value, str_base& out)
         if (strcmpi(token.c_str(), "on") == 0)
         {
             if (pcolor == &bg) return false; // can't use "on" more than once
-            if (!*phex && bright > 0)
+            if (fg >= 0 && !*phex && bright > 0)
                 fg += 8;
             pcolor = &bg;
             phex = &bg_hex;
-- 
2.43.0


From 69dc41528776a4c6e339e5bcb320c9c2ffea5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 17/96] fix: clearing a setting from a script does not crash or
 store an empty value

---
 clink/core/src/settings.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index a1aa3e4..171cec2 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -773,9 +773,16 @@ bool sandboxed_set_setting(const char* name, const char* value)
     rollback<loaded_settings_map*> rb_loaded(g_loaded_settings, &tmp_loaded_map);
 
     // Load settings.
-    return (load(file, default_file) &&
-            set_setting(name, value) &&
-            save(file));
+    if (!load(file, default_file))
+        return false;
+
+    // Set or clear the setting.
+    if (!value)
+        clear_setting(name);
+    else if (!set_setting(name, value))
+        return false;
+
+    return save(file);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 3d090eb837f60739976891076b0d6eaa0ebb9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 18/96] fix: saving one setting does not change the color
 settings in memory

---
 clink/core/src/settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 171cec2..5ae5c31 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -741,7 +741,8 @@ public:
         for (auto& i : get_map())
         {
             setting* iter = i.second;
-            iter->get(value);
+            // Color settings can only be set from the descriptive form.
+            iter->get_descriptive(value, false);
             m_restore.emplace(iter->get_name(), std::move(value));
         }
     }
-- 
2.43.0


From 6ec16eaf31749dd767b4748599cb3be56d0cf61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 19/96] fix: changing the saved value of a setting whose script
 is not loaded takes effect

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 5ae5c31..34d4436 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -374,7 +374,7 @@ static bool set_setting(const char* name, const char* value, const char* comment
                 loaded.comment = l->second.comment.c_str();
         }
         loaded.value = value;
-        get_loaded_map().emplace(name, std::move(loaded));
+        get_loaded_map()[name] = std::move(loaded);
         return true;
     }
 
-- 
2.43.0


From c40db76ca3dfcbca65e62cf15f71f88cc9823012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 20/96] fix: the default settings file is not closed twice

---
 clink/core/src/settings.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 34d4436..b407988 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -319,8 +319,6 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         custom_default.value = value;
         map.emplace(name, std::move(custom_default));
     });
-
-    fclose(in);
 }
 
 
-- 
2.43.0


From 8348f4a865201b5fd912eab00c56d77f34456d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 21/96] fix: clearing to the end of the row does not erase text
 after the changed part

---
 clink/lib/src/display_readline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index aecee31..dc97d1c 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2638,8 +2638,8 @@ left_whole:
                         use_eol_opt = false;
                         break;
                     }
-                    --ec;
-                    --ef;
+                    ++ec;
+                    ++ef;
                 }
             }
 
-- 
2.43.0


From 3c86481dd3b6cb804b504d14773d7ed922fac403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 22/96] fix: horizontal scrolling shows control characters at
 the right columns

---
 clink/lib/src/display_readline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index dc97d1c..2a0a000 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -848,16 +848,21 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
         if (index == rl_point)
             m_cpos = col;
 
-        for (const char* add = tmp.c_str(); *add; ++add, ++index)
+        for (const char* add = tmp.c_str(); *add; ++add)
         {
             if (col >= limit)
+            {
+                overflow = true;
                 break;
+            }
 
             assert(*add >= 0 && *add <= 0x7f); // Only ASCII characters are generated.
             d->append(*add, face);
             ++col;
         }
 
+        ++index;
+
         assert(uint32(iter.character_pointer() + iter.character_length() - buffer) == index);
 
         if (col >= limit)
-- 
2.43.0


From 7a504575772dd995749fb8c2c68d76a5a94b286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 23/96] fix: finishing a wrap below a prompt that wraps
 reprints the right character

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 2a0a000..d733bf7 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2984,7 +2984,7 @@ void display_manager::finish_pending_wrap()
 
     // If there's a display_line, then re-print its first character to force
     // wrapping.  Otherwise, print a placeholder.
-    const int32 index = m_pending_wrap_display->top() +  _rl_last_v_pos;
+    const int32 index = m_pending_wrap_display->top() + _rl_last_v_pos - m_last_prompt_line_botlin;
     assert(index >= 0);
     if (index < m_pending_wrap_display->count())
     {
-- 
2.43.0


From 744203da8399ab5a2f745ecf6cccc664ba44cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 24/96] fix: scrolling the input line vertically works when the
 last line of the prompt wraps

---
 clink/lib/src/display_readline.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index d733bf7..ce6b9eb 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1972,15 +1972,15 @@ void display_manager::display()
     const uint32 old_top = m_top;
     if (m_top < m_last_prompt_line_botlin)
         m_top = m_last_prompt_line_botlin;
-    if (m_last_prompt_line_botlin + next->vpos() < m_top)
-        m_top = m_last_prompt_line_botlin + next->vpos();
-    if (m_last_prompt_line_botlin + next->vpos() > m_top + input_botlin_offset)
+    if (next->vpos() < m_top)
+        m_top = next->vpos();
+    if (next->vpos() > m_top + input_botlin_offset)
         m_top = next->vpos() - input_botlin_offset;
     if (m_top + input_botlin_offset + 1 > next->count())
         m_top = next->count() - 1 - input_botlin_offset;
 
     // Scroll when cursor is on a scroll marker.
-    if (m_top > m_last_prompt_line_botlin && m_top == m_last_prompt_line_botlin + next->vpos())
+    if (m_top > m_last_prompt_line_botlin && m_top == next->vpos())
     {
         const display_line* d = next->get(m_top);
         if (next->cpos() >= d->m_x && next->cpos() < d->m_x + c_horz_scroll_indicator_chars)
-- 
2.43.0


From ef2134c620b3e3efdfe77938a289cf844fac4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 25/96] fix: scroll markers on wide characters and blank rows
 keep the columns right

---
 clink/lib/src/display_readline.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index ce6b9eb..d14b76f 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -909,7 +909,11 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
         if (!d.m_len)
         {
             for (uint32 num = c_horz_scroll_indicator_chars; num--;)
+            {
                 d.append('<', FACE_SCROLL);
+                d.m_lastcol++;
+            }
+            d.m_scroll_mark = c_horz_scroll_indicator_chars;
             d.appendnul();
         }
         else
@@ -935,14 +939,19 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                     i++;
                 }
                 d.m_scroll_mark = c_horz_scroll_indicator_chars;
+                while (i < uint32(wc))
+                {
+                    d.m_chars[i] = ' ';
+                    d.m_faces[i] = FACE_NORMAL;
+                    bytes--;
+                    i++;
+                }
                 if (bytes > 0)
                 {
                     memmove(d.m_chars + i, d.m_chars + i + bytes, d.m_len - (i + bytes));
                     memmove(d.m_faces + i, d.m_faces + i + bytes, d.m_len - (i + bytes));
                     d.m_len -= bytes;
                 }
-                while (--wc > 0)
-                    d.appendspace();
                 d.appendnul();
                 break;
             }
@@ -959,6 +968,7 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
         if (d.m_lastcol - d.m_x > 2)
         {
             d.m_len -= d.m_trail;
+            d.m_trail = 0;
             while (d.m_x + d.m_lastcol + c_horz_scroll_indicator_chars >= _rl_screenwidth)
             {
                 const int32 bytes = _rl_find_prev_mbchar(d.m_chars, d.m_len, MB_FIND_NONZERO);
-- 
2.43.0


From e10f6366614423c3ccc907f167df4dc9fa10db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 26/96] fix: a row with a scroll marker is not padded into the
 right edge and beyond

---
 clink/lib/src/display_readline.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index d14b76f..4efe2fc 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -881,7 +881,6 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
             d->append('>', FACE_SCROLL);
             d->m_lastcol++;
         }
-        d->m_toeol = false;
     }
 
     d->appendnul();
@@ -987,7 +986,6 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                 d.m_lastcol++;
             }
             d.m_scroll_mark = -1;
-            d.m_toeol = false;
             d.appendnul();
         }
     }
-- 
2.43.0


From 40c0f752a5eaa00a6956bfd330bc13b49261480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 27/96] fix: an input line that fills the terminal does not
 scroll it

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 4efe2fc..39210a9 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2203,7 +2203,7 @@ void display_manager::display()
 
     if (m_curr.has_comment_row() != next->has_comment_row() ||
         strcmp(m_curr.get_comment_row(), next->get_comment_row()) ||
-        new_botlin != old_botlin)
+        (new_botlin != old_botlin && _rl_vis_botlin + 1 < _rl_screenheight))
     {
         bool reset_col = false;
 
-- 
2.43.0


From 438ed1831ba66a00f4768edf6bd0ebf41f3bb160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 28/96] fix: the cursor is not left on the scroll marker at the
 right

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 39210a9..5cfae1d 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1996,7 +1996,7 @@ void display_manager::display()
     }
     else if (m_top + input_botlin_offset < next->count() - 1 && m_top + input_botlin_offset == next->vpos())
     {
-        if (next->cpos() + c_horz_scroll_indicator_chars >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
+        if (next->cpos() + c_horz_scroll_indicator_chars + 1 >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
             m_top++;
     }
     assert(m_top >= m_last_prompt_line_botlin);
-- 
2.43.0


From 5e4f44e35cd1fb88b9fbed7ec9d67736a8833933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 29/96] fix: horizontal scrolling does not start in the middle
 of a character

---
 clink/lib/src/display_readline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 5cfae1d..c4d665c 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -752,6 +752,8 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
     clear();
     m_width = _rl_screenwidth;
     m_horz_start = ref.m_horz_start;
+    while (m_horz_start > 0 && m_horz_start < len && (uint8(buffer[m_horz_start]) & 0xc0) == 0x80)
+        --m_horz_start;
 
     m_prompt_botlin = prompt_botlin;
     while (prompt_botlin--)
@@ -774,7 +776,7 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
         {
             m_horz_start = point;
             if (!adjust_columns(m_horz_start, 0 - scroll_stride*2, buffer, len))
-                m_horz_start++;
+                m_horz_start = _rl_find_next_mbchar(const_cast<char*>(buffer), m_horz_start, 1, MB_FIND_NONZERO);
         }
     }
 
-- 
2.43.0


From bbf9cca2d306b7bf5aaf529beb82c2eb13aa4f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 30/96] fix: scrolling back up to a prompt that fills its row
 wraps after it

---
 clink/lib/src/display_readline.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index c4d665c..8b83f48 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1521,6 +1521,7 @@ private:
     str_moveable        m_last_prompt_line;
     int32               m_last_prompt_line_width = -1;
     int32               m_last_prompt_line_botlin = -1;
+    bool                m_last_prompt_line_force_wrap = false;
     int32               m_last_point = -1;
     bool                m_last_modmark = false;
     bool                m_horz_scroll = false;
@@ -1592,6 +1593,7 @@ void display_manager::clear()
     m_last_prompt_line.clear();
     m_last_prompt_line_width = -1;
     m_last_prompt_line_botlin = -1;
+    m_last_prompt_line_force_wrap = false;
     m_last_point = -1;
     m_last_modmark = false;
     m_horz_scroll = false;
@@ -1936,14 +1938,13 @@ void display_manager::display()
 
     // Calculate ending row and column, accounting for wrapping (including
     // double width characters that don't fit).
-    bool force_wrap = false;
     if (forced_display)
     {
         measure_columns mc(measure_columns::print);
         if (modmark)
             mc.measure("*", true);
         mc.measure(prompt, true);
-        force_wrap = mc.get_force_wrap();
+        m_last_prompt_line_force_wrap = mc.get_force_wrap();
         m_last_prompt_line_width = mc.get_column();
         m_last_prompt_line_botlin = mc.get_line_count() - 1;
     }
@@ -2044,7 +2045,7 @@ void display_manager::display()
 
         rl_fwrite_function(_rl_out_stream, prompt, strlen(prompt));
 
-        m_pending_wrap = force_wrap;
+        m_pending_wrap = m_last_prompt_line_force_wrap;
 
         if (is_CJK_codepage(GetConsoleOutputCP()))
         {
-- 
2.43.0


From d9e356ecdc031f2b25b5cf89fb4747c1429c1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 31/96] fix: the cursor on a line break after a full row stays
 inside the row

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 8b83f48..62eb359 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -605,7 +605,7 @@ void display_lines::parse(uint32 prompt_botlin, uint32 col, const char* buffer,
             if (index == rl_point)
             {
                 m_vpos = m_count - 1;
-                m_cpos = col;
+                m_cpos = min<uint32>(col, _rl_screenwidth - 1);
             }
 
             ++index;
-- 
2.43.0


From 45c38665243f5f3f56db9faaf44e5c13ab9497c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 32/96] fix: starting to scroll horizontally does not shift the
 right side prompt

---
 clink/lib/src/display_readline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 62eb359..c63d983 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2527,7 +2527,9 @@ void display_manager::update_line(int32 i, const display_line* o, const display_
     // Optimize updating when the new starting column is less than or equal to
     // the old starting column.  Can't optimize in the other direction unless
     // update_line(0) happens before displaying the prompt string.
-    if (!m_horizpos_workaround && o && d->m_x <= o->m_x && can_optimize)
+    // And shifting text would also shift a right side prompt.
+    const bool can_shift = !has_rprompt || (o && o->m_x == d->m_x);
+    if (!m_horizpos_workaround && o && d->m_x <= o->m_x && can_shift && can_optimize)
     {
         const char* oc = o->m_chars;
         const char* of = o->m_faces;
@@ -2708,7 +2710,7 @@ left_whole:
 
     move_to_row(row);
 
-    if (o && o->m_x > d->m_x)
+    if (o && o->m_x > d->m_x && can_shift)
     {
         move_to_column(d->m_x);
         shift_cols(d->m_x, d->m_x - o->m_x);
-- 
2.43.0


From f53b18945c920cfff9dcc5675087f3ef125af970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 33/96] fix: replacing the prompt by one with fewer rows erases
 the surplus rows

---
 clink/lib/src/display_readline.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index c63d983..90f05f2 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -99,7 +99,7 @@ extern "C" int32 is_CJK_codepage(UINT cp);
 extern bool is_test_harness();
 extern int32 g_prompt_redisplay;
 static uint32 s_defer_clear_lines = 0;
-static uint32 s_defer_erase_extra_lines = 0;
+static uint32 s_defer_erase_extra_lines = 0;   // Number of rows that were displayed, including the prompt prefix.
 static bool s_ever_input_hint = false;
 static bool s_transient_prompt_context = false;
 bool g_display_manager_no_comment_row = false;
@@ -2245,8 +2245,8 @@ void display_manager::display()
     if (s_defer_erase_extra_lines)
     {
         assert(forced_display);
-        const uint32 old_height = min<uint32>(_rl_screenheight, s_defer_erase_extra_lines + m_curr.height());
-        const uint32 next_height = prompt_prefix_lines + next->height();
+        const uint32 old_height = min<uint32>(_rl_screenheight, s_defer_erase_extra_lines);
+        const uint32 next_height = prompt_prefix_lines + _rl_vis_botlin + 1 + next->has_comment_row();
         if (old_height > next_height)
         {
             move_to_row(_rl_vis_botlin + next->has_comment_row() + 1);
@@ -3116,6 +3116,10 @@ void defer_clear_lines(uint32 prompt_lines, bool transient)
     else
         up = "\r";
 
+    // Forcing a redisplay resets _rl_vis_botlin and the display lines, so the
+    // number of rows must be counted before then.
+    const uint32 displayed_rows = prompt_lines + _rl_vis_botlin + 1 + s_display_manager.has_comment_row();
+
     _rl_move_vert(0);
     rl_fwrite_function(_rl_out_stream, up.c_str(), up.length());
     _rl_last_c_pos = 0;
@@ -3129,7 +3133,7 @@ void defer_clear_lines(uint32 prompt_lines, bool transient)
     {
         if (is_sparse_prompt_spacing())
             s_defer_clear_lines = max<uint32>(s_defer_clear_lines, 1);
-        s_defer_erase_extra_lines = s_display_manager.is_displayed() ? prompt_lines : 0;
+        s_defer_erase_extra_lines = s_display_manager.is_displayed() ? displayed_rows : 0;
     }
 }
 
-- 
2.43.0


From 37d0026081ac7fa7581ec5c1ed9269e95237200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 34/96] fix: replacing the prompt clears the rows that are
 blank in the new one

---
 clink/lib/src/display_readline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 90f05f2..8dd8879 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1765,7 +1765,9 @@ int32 display_manager::write_with_clear(FILE* stream, const char* text, int leng
         if (eol)
         {
             ++lines;
-            while (remaining > 0 && (*text == '\r' || *text == '\n'))
+            while (remaining > 0 && *text == '\r')
+                ++text, --remaining;
+            if (remaining > 0 && *text == '\n')
                 ++text, --remaining;
             length = int(text - eol);
             if (erase_in_line)
-- 
2.43.0


From 020c2cd248767286606ec36044e02734ec741e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 35/96] fix: replacing the prompt shows the right side prompt
 again

---
 clink/lib/src/display_readline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 8dd8879..17dddf3 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2043,7 +2043,12 @@ void display_manager::display()
         }
 
         if (forced_display || (prompt_contains_problem_codes(prompt) & BIT_PROMPT_PROBLEM))
+        {
+            // This makes update_line() clear the row, including the right
+            // side prompt.
             m_curr.clear();
+            reset_rprompt_shown();
+        }
 
         rl_fwrite_function(_rl_out_stream, prompt, strlen(prompt));
 
-- 
2.43.0


From a7dfa217707df378ffcf70ae295bf35bf0d27ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 36/96] fix: replacing a prompt that wraps redraws it while the
 input line is scrolled

---
 clink/lib/src/display_readline.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 17dddf3..ca3a39e 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2018,9 +2018,10 @@ void display_manager::display()
     // Display the last line of the prompt.
     const bool old_horz_scrolled = m_curr.is_horz_scrolled();
     const bool is_horz_scrolled = next->is_horz_scrolled();
-    if (m_top == m_last_prompt_line_botlin && (forced_display ||
-                                               old_top != m_top ||
-                                               old_horz_scrolled != is_horz_scrolled))
+    if ((m_top == m_last_prompt_line_botlin && (forced_display ||
+                                                old_top != m_top ||
+                                                old_horz_scrolled != is_horz_scrolled)) ||
+        (forced_display && m_last_prompt_line_botlin > 0))
     {
         assert(need_update); // See is_CJK_codepage usage below...
 
-- 
2.43.0


From 82fbe4421484a269a5ede476d345838580ef8849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 37/96] fix: clicking in an input line with line breaks, a
 wrapped prompt or horizontal scrolling missed the character

---
 clink/lib/src/display_readline.cpp | 74 ++++++++++++++++--------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index ca3a39e..d2654eb 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1487,6 +1487,7 @@ public:
     void                force_comment_row(const char* text);
     void                measure(measure_columns& mc);
     bool                get_horz_offset(int32& bytes, int32& column) const;
+    uint32              position_from_row_col(int32 row, uint32 col) const;
     bool                has_comment_row() const;
     void                clear_comment_row();
     bool                is_initialized() const;
@@ -2453,6 +2454,43 @@ bool display_manager::get_horz_offset(int32& bytes, int32& column) const
     return m_curr.get_horz_offset(bytes, column);
 }
 
+//------------------------------------------------------------------------------
+uint32 display_manager::position_from_row_col(int32 row, uint32 col) const
+{
+    // Rows above the input line are the wrapped part of the prompt.
+    const int32 botlin = max<int32>(m_last_prompt_line_botlin, 0);
+    if (row < botlin)
+    {
+        row = botlin;
+        col = 0;
+    }
+
+    const display_line* d = m_curr.get(m_top + row - botlin);
+    if (!d)
+        return rl_end;
+
+    // Walk the part of the line buffer that the row displays.
+    const uint32 end = min<uint32>(d->m_end, rl_end);
+    const uint32 start = min<uint32>(d->m_start, end);
+    const bool continued = (d->m_lead && !m_curr.is_horz_scrolled());
+    uint32 consumed = continued ? 0 : max<uint32>(d->m_x, d->m_lead);
+
+    wcwidth_iter iter(rl_line_buffer + start, end - start);
+    for (bool first = true; iter.more(); first = false)
+    {
+        iter.next();
+        const uint32 w = (first && continued) ? d->m_lead : iter.character_wcwidth_twoctrl();
+        if (consumed + w > col)
+        {
+            iter.unnext();
+            break;
+        }
+        consumed += w;
+    }
+
+    return uint32(iter.get_pointer() - rl_line_buffer);
+}
+
 //------------------------------------------------------------------------------
 bool display_manager::has_comment_row() const
 {
@@ -3451,41 +3489,7 @@ bool translate_xy_to_readline(uint32 x, uint32 y, int32& pos, bool clip)
         v_pos = _rl_vis_botlin;
     }
 
-    v_pos += get_readline_display_top_offset();
-
-    int32 offset = 0;
-    int32 prefix = rl_get_prompt_prefix_visible();
-    int32 point = 0;
-
-    if (s_display_manager.get_horz_offset(offset, prefix))
-        point = offset;
-
-    wcwidth_iter iter(rl_line_buffer + offset, rl_end);
-    for (uint32 i = 0; i <= v_pos; i++)
-    {
-        const int32 target = (i == v_pos ? x : _rl_screenwidth);
-        int32 consumed = i ? 0 : prefix;
-
-        const char* ptr = iter.character_pointer();
-        while (iter.next())
-        {
-            const int32 w = iter.character_wcwidth_twoctrl();
-            if (consumed + w > target)
-            {
-                iter.unnext();
-                break;
-            }
-            consumed += w;
-        }
-
-        point += int32(iter.character_pointer() - ptr);
-    }
-
-    assert(point <= rl_end);
-    if (point > rl_end)
-        point = rl_end;
-
-    pos = point;
+    pos = s_display_manager.position_from_row_col(v_pos, x);
     return true;
 }
 
-- 
2.43.0


From 12003b9b8b5845b04d47ad2045e2d4500c4b47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 38/96] fix: words up to a caret at the cursor depended on the
 text after the cursor

---
 clink/lib/src/cmd_tokenisers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 5a37b70..ee04c44 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -618,7 +618,8 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
             // arg, without needing quotes.
             if (c == '^' && !redir_arg)
             {
-                char c2 = *m_iter.get_next_pointer();
+                // Don't look past the end of the range being tokenised.
+                const char c2 = (m_iter.length() > 1) ? *m_iter.get_next_pointer() : c;
                 input_type input2 = get_input_type(c2);
                 if (input2 == iSpc)
                 {
-- 
2.43.0


From 8e3f0d5795bea5ceed86a601a502ab7192b16e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 39/96] fix: the & in >&2 and <&3 was taken for a command
 separator

---
 clink/lib/src/cmd_tokenisers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index ee04c44..3ad0184 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -72,10 +72,10 @@ static const tokeniser_state c_transition[][input_type::iMAX] =
     /* sTxt */        { sTxt,   sSpc,   sTxt,   sIn,    sOut,   sBREAK, sBREAK, },
     /* sSpc */        { sTxt,   sSpc,   sDig,   sIn,    sOut,   sBREAK, sBREAK, },
     /* sDig */        { sTxt,   sSpc,   sTxt,   sDIn,   sDOut,  sBREAK, sBREAK, },
-    /* sIn */         { sARG,   sARG,   sARG,   sIn2,   sBAD,   sBAD,   sBAD,   },
-    /* sOut */        { sARG,   sARG,   sARG,   sBAD,   sOut2,  sBAD,   sBAD,   },
-    /* sIn2 */        { sARG,   sARG,   sARG,   sBAD,   sBAD,   sBAD,   sBAD,   },
-    /* sOut2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sBAD,   sBAD,   },
+    /* sIn */         { sARG,   sARG,   sARG,   sIn2,   sBAD,   sReAm,  sBAD,   },
+    /* sOut */        { sARG,   sARG,   sARG,   sBAD,   sOut2,  sReAm,  sBAD,   },
+    /* sIn2 */        { sARG,   sARG,   sARG,   sBAD,   sBAD,   sReAm,  sBAD,   },
+    /* sOut2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sReAm,  sBAD,   },
     /* sDIn */        { sARG,   sARG,   sARG,   sDIn2,  sBAD,   sReAm,  sBAD,   },
     /* sDOut */       { sARG,   sARG,   sARG,   sBAD,   sDOut2, sReAm,  sBAD,   },
     /* sDIn2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sReAm,  sBAD,   },
-- 
2.43.0


From f881a1281071166e6b0555e30565476d751afaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 40/96] fix: a redirection like 2>&1 at the end of a command
 was followed by an empty word

---
 clink/lib/src/cmd_tokenisers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 3ad0184..2ef1e33 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -598,6 +598,10 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
                 // Else start a new word.
                 state = sSpc;
                 start_new_word();
+                // A redirection without an argument (e.g. "2>&1") at the end
+                // isn't followed by a word.
+                if (!redir_arg && !m_iter.more())
+                    return word_token(word_token::invalid_delim);
                 c = m_iter.peek();
                 input = get_input_type(c);
                 new_state = c_transition[state][input];
-- 
2.43.0


From 6ac415c2c1a1fd42933f37c0c9dc707cf902759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 41/96] fix: an internal command after a redirection (>nul
 cd\x) was not recognised

---
 clink/lib/src/cmd_tokenisers.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 2ef1e33..04d9b1d 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -518,10 +518,14 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
 
     auto start_new_word = [this, &start_word, &end_word, &offset, &redir_arg, &command_word]()
     {
-        m_cmd_state.next_word();
         // Pick up carried redir_arg.
         redir_arg = m_next_redir_arg;
         m_next_redir_arg = false;
+        // Redirections can precede the command word.
+        if (m_command_word && !redir_arg)
+            m_cmd_state.clear(false);
+        else
+            m_cmd_state.cancel();
         // Skip past any separators.
         while (m_iter.more())
         {
-- 
2.43.0


From 3d942b97df63d03d2cbdbf61590f56cb1e2444b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 42/96] fix: several spaces at the end of a command added an
 empty word

---
 clink/lib/src/cmd_tokenisers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 04d9b1d..bceb769 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -554,6 +554,10 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
 
     start_new_word();
 
+    // Delimiters at the end aren't followed by a word.
+    if (!redir_arg && !m_iter.more())
+        return word_token(word_token::invalid_delim);
+
     int32 c = 0;
     bool first_char = true;
     bool first_slash = false;
-- 
2.43.0


From e06922d0372c90b7533d6f807731ea50915a6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 43/96] fix: add the preferred separator to directories when no
 separator was typed

---
 clink/lib/src/matches_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 4291886..4a55cf9 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1273,7 +1273,7 @@ void matches_impl::done_building()
         {
         case slash_translation::slash:      sep = '/'; break;
         case slash_translation::backslash:  sep = '\\'; break;
-        case slash_translation::automatic:  sep = m_sep; break;
+        case slash_translation::automatic:  if (m_sep) sep = m_sep; break;
         }
 
         for (uint32 i = m_count; i--;)
-- 
2.43.0


From b0f1d2cdd15f53f0a6470976eaba8e8a1ee6379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 44/96] fix: count matches that become duplicates when their
 types become known

---
 clink/lib/src/matches_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 4a55cf9..0386de4 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1305,7 +1305,10 @@ void matches_impl::done_building()
 
                 // Check if it has become a duplicate.
                 if (m_dedup->find(lookup) != m_dedup->end())
+                {
                     m_infos.erase(m_infos.begin() + i);
+                    --m_count;
+                }
                 else
                     m_dedup->emplace(std::move(lookup));
             }
-- 
2.43.0


From dc57294b0ac513c63988c1479eb686f995b88fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 45/96] fix: keep the original order of unsorted matches in a
 copy

---
 clink/lib/src/matches_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 0386de4..b561a6f 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -999,7 +999,7 @@ void matches_impl::copy(const matches_impl& from)
         add.match = info.match ? m_store.store_front(info.match) : nullptr;
         add.display = info.display ? m_store.store_front(info.display) : nullptr;
         add.description = info.description ? m_store.store_front(info.description) : nullptr;
-        add.ordinal = m_infos.size();
+        add.ordinal = info.ordinal; // (m_infos may have been sorted.)
         add.type = info.type;
         add.append_char = info.append_char;
         add.suppress_append = info.suppress_append;
-- 
2.43.0


From 6fb0eb14ec0e6c3bac58ed01f289c23cf611ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 46/96] fix: offer more than 65535 matches

---
 clink/lib/src/matches_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.h b/clink/lib/src/matches_impl.h
index 671ba1b..760f91b 100644
--- a/clink/lib/src/matches_impl.h
+++ b/clink/lib/src/matches_impl.h
@@ -152,7 +152,7 @@ private:
     store_impl              m_store;
     infos                   m_infos;
     int32                   m_generation_id = -1;
-    unsigned short          m_count = 0;
+    uint32                  m_count = 0;
     bool                    m_any_none_type = false;
     bool                    m_deprecated_mode = false;
     bool                    m_coalesced = false;
-- 
2.43.0


From 4b7f4a809a44b501bcea7c9c0ca7a5c6ff0b6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 47/96] fix: translate slashes of matches generated in the
 background like the typed word

---
 clink/lib/include/lib/matches.h  |  3 ++-
 clink/lib/src/match_pipeline.cpp | 15 +--------------
 clink/lib/src/matches_impl.cpp   | 28 +++++++++++++++++++++-------
 clink/lib/src/matches_impl.h     |  2 +-
 clink/lua/src/suggest.cpp        |  2 +-
 5 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/clink/lib/include/lib/matches.h b/clink/lib/include/lib/matches.h
index 08d2e68..6aecb3f 100644
--- a/clink/lib/include/lib/matches.h
+++ b/clink/lib/include/lib/matches.h
@@ -10,6 +10,7 @@
 #include <assert.h>
 
 class str_base;
+class line_state;
 
 //------------------------------------------------------------------------------
 typedef unsigned short match_type_intrinsic;
@@ -289,5 +290,5 @@ public:
 };
 
 //------------------------------------------------------------------------------
-std::shared_ptr<match_builder_toolkit> make_match_builder_toolkit(int32 generation_id, uint32 end_word_offset);
+std::shared_ptr<match_builder_toolkit> make_match_builder_toolkit(int32 generation_id, const line_state& line);
 bool notify_matches_ready(std::shared_ptr<match_builder_toolkit> toolkit, int32 generation_id);
diff --git a/clink/lib/src/match_pipeline.cpp b/clink/lib/src/match_pipeline.cpp
index 20ecb9d..64a7515 100644
--- a/clink/lib/src/match_pipeline.cpp
+++ b/clink/lib/src/match_pipeline.cpp
@@ -323,20 +323,7 @@ void match_pipeline::generate(
 
     m_matches.set_word_break_position(state.get_end_word_offset());
 
-    // Detect what kind of slash to use in case slash translation mode ends up
-    // being automatic.  Generators can change the mode, so don't check it here.
-    char sep = 0;
-    str<32> endword;
-    state.get_end_word(endword);
-    for (const char* p = endword.c_str(); *p; ++p)
-    {
-        if (*p == '/' || *p == '\\')
-        {
-            sep = *p;
-            break;
-        }
-    }
-    m_matches.set_path_separator(sep);
+    m_matches.set_path_separator(state);
 
     match_builder builder(m_matches);
     if (generator)
diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index b561a6f..7f191e1 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -3,6 +3,7 @@
 
 #include "pch.h"
 #include "matches_impl.h"
+#include "line_state.h"
 #include "match_generator.h"
 #include "match_pipeline.h"
 #include "slash_translation.h"
@@ -387,7 +388,7 @@ void match_builder::set_matches_are_files(bool files)
 class match_builder_toolkit_impl : public match_builder_toolkit
 {
 public:
-                            match_builder_toolkit_impl(int32 generation_id, uint32 end_word_offset);
+                            match_builder_toolkit_impl(int32 generation_id, const line_state& line);
                             ~match_builder_toolkit_impl();
     int32                   get_generation_id() const override { return m_generation_id; }
     matches*                get_matches() const override { return m_matches; }
@@ -401,11 +402,12 @@ private:
 };
 
 //------------------------------------------------------------------------------
-match_builder_toolkit_impl::match_builder_toolkit_impl(int32 generation_id, uint32 end_word_offset)
+match_builder_toolkit_impl::match_builder_toolkit_impl(int32 generation_id, const line_state& line)
 : m_generation_id(generation_id)
 {
     matches_impl* matches = new matches_impl();
-    matches->set_word_break_position(end_word_offset);
+    matches->set_word_break_position(line.get_end_word_offset());
+    matches->set_path_separator(line);
 
     m_matches = matches;
     m_builder = new match_builder(*matches);
@@ -425,9 +427,9 @@ void match_builder_toolkit_impl::clear()
 }
 
 //------------------------------------------------------------------------------
-std::shared_ptr<match_builder_toolkit> make_match_builder_toolkit(int32 generation_id, uint32 end_word_offset)
+std::shared_ptr<match_builder_toolkit> make_match_builder_toolkit(int32 generation_id, const line_state& line)
 {
-    return std::make_shared<match_builder_toolkit_impl>(generation_id, end_word_offset);
+    return std::make_shared<match_builder_toolkit_impl>(generation_id, line);
 }
 
 
@@ -1083,9 +1085,21 @@ void matches_impl::set_word_break_position(int32 position)
 }
 
 //------------------------------------------------------------------------------
-void matches_impl::set_path_separator(char sep)
+void matches_impl::set_path_separator(const line_state& line)
 {
-    m_sep = sep;
+    // Detect what kind of slash to use in case slash translation mode ends up
+    // being automatic.  Generators can change the mode, so don't check it here.
+    m_sep = 0;
+    str<32> endword;
+    line.get_end_word(endword);
+    for (const char* p = endword.c_str(); *p; ++p)
+    {
+        if (*p == '/' || *p == '\\')
+        {
+            m_sep = *p;
+            break;
+        }
+    }
 }
 
 //------------------------------------------------------------------------------
diff --git a/clink/lib/src/matches_impl.h b/clink/lib/src/matches_impl.h
index 760f91b..d82a887 100644
--- a/clink/lib/src/matches_impl.h
+++ b/clink/lib/src/matches_impl.h
@@ -92,7 +92,7 @@ public:
     virtual bool            filter_matches(char** matches, char completion_type, bool filename_completion_desired) const override;
 
     void                    set_word_break_position(int32 position);
-    void                    set_path_separator(char sep);
+    void                    set_path_separator(const line_state& line);
     void                    set_regen_blocked();
     bool                    is_regen_blocked() const { return m_regen_blocked; }
     int32                   get_completion_type() const { return m_completion_type; }
diff --git a/clink/lua/src/suggest.cpp b/clink/lua/src/suggest.cpp
index cc1bacf..e597472 100644
--- a/clink/lua/src/suggest.cpp
+++ b/clink/lua/src/suggest.cpp
@@ -93,7 +93,7 @@ nosuggest:
     }
     else
     {
-        std::shared_ptr<match_builder_toolkit> toolkit = make_match_builder_toolkit(matches_generation_id, line.get_end_word_offset());
+        std::shared_ptr<match_builder_toolkit> toolkit = make_match_builder_toolkit(matches_generation_id, line);
 
         // These can't be bound to stack objects because they must stay valid
         // for the duration of the coroutine.
-- 
2.43.0


From 5518991591c5afd5f384424ede30c4d12009487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 48/96] fix: names of Alt+[ and Alt+Shift+O carry leftover
 modifiers

---
 clink/terminal/src/win_terminal_in.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 3e8b7b9..00b02cd 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -425,6 +425,7 @@ static void ensure_keyseqs_to_names()
 
     if (!g_terminal_raw_esc.get())
     {
+        builder = mods[0];
         add_keyseq_to_name("\x1b[27;3;91~", "A-[", builder, 0);
         add_keyseq_to_name("\x1b[27;4;79~", "A-S-O", builder, 0);
     }
-- 
2.43.0


From 09b9d626ff14af3c071e00f6f8c6f8f895da7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 49/96] fix: Ctrl+[ is not differentiated from Esc when
 terminal.raw_esc is set

---
 clink/terminal/src/win_terminal_in.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 00b02cd..e401455 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1673,7 +1673,10 @@ void win_terminal_in::process_input(KEY_EVENT_RECORD const& record, bool peek)
                 {
                 case 0x1b:
                     if (g_differentiate_keys.get())
-                        goto not_ctrl;
+                    {
+                        ctrl_code = false;
+                        break;
+                    }
                     // fall thru
                 case 0x1c:
                 case 0x1d:
-- 
2.43.0


From d57a254f69e8be1dea53fb371d6825b7b2dac7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 50/96] fix: checking for available input loses a mouse click

---
 clink/terminal/src/win_terminal_in.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index e401455..3f50711 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1042,6 +1042,7 @@ bool win_terminal_in::peek_record(const INPUT_RECORD& record, int32* peeked)
     bool ret = false;
     const uint32 buffer_count = m_buffer_count;
     const wchar_t lead_surrogate = m_lead_surrogate;
+    const DWORD prev_mouse_button_state = m_prev_mouse_button_state;
 
     switch (record.EventType)
     {
@@ -1069,6 +1070,8 @@ bool win_terminal_in::peek_record(const INPUT_RECORD& record, int32* peeked)
         m_buffer_count = buffer_count; // Revert.
         if (lead_surrogate)
             m_lead_surrogate = lead_surrogate; // Revert.
+        if (ret)
+            m_prev_mouse_button_state = prev_mouse_button_state; // Revert; the record gets processed later.
         break;
 
     case WINDOW_BUFFER_SIZE_EVENT:
-- 
2.43.0


From 64b5c7b1c579773a527608e3a63497efe0114b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 51/96] fix: responses to non-CSI terminal requests are never
 recognized

---
 clink/terminal/src/win_terminal_in.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 3f50711..8f6bcf7 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -754,12 +754,12 @@ int32 win_terminal_in::peek()
     return terminal_in::input_none;
 }
 
-static bool is_final_byte(const char* final, const char* candidate)
+static bool is_final_byte(const char* final, const char* begin, const char* candidate)
 {
     if (final)
         return (*candidate == *final);
     else
-        return (!(*candidate == 0x07) && !(*candidate == '\\' && candidate[-1] == 27));
+        return ((*candidate == 0x07) || (*candidate == '\\' && candidate > begin && candidate[-1] == 27));
 }
 
 static bool is_matching_response(const str_base& input, const char* prefix, const char* final, str_base& out, size_t& begin_offset, size_t& end_offset)
@@ -798,7 +798,7 @@ static bool is_matching_response(const str_base& input, const char* prefix, cons
         if (matched)
         {
             const char* last = code.get_pointer() + code.get_length() - 1;
-            if (!is_final_byte(final, last))
+            if (!is_final_byte(final, code.get_pointer(), last))
                 matched = nullptr;
         }
 
@@ -937,7 +937,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
 
             correlation.char_count = input.length() - correlation.stream_index;
 
-            if (input.length() && is_final_byte(final, input.c_str() + input.length() - 1))
+            if (input.length() && is_final_byte(final, input.c_str(), input.c_str() + input.length() - 1))
             {
                 size_t begin_offset;
                 size_t end_offset;
-- 
2.43.0


From 618d1589b6e82da5e3f450c1e492a7800f4d0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 52/96] fix: a terminal request loses emoji and mouse clicks
 typed meanwhile

---
 clink/terminal/src/win_terminal_in.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 8f6bcf7..bc2930c 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -878,6 +878,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
     auto buffer_head = m_buffer_head;
     auto buffer_count = m_buffer_count;
     auto lead_surrogate = m_lead_surrogate;
+    auto prev_mouse_button_state = m_prev_mouse_button_state;
     memcpy(buffer, m_buffer, sizeof(m_buffer));
     m_pending_records.swap(pending_records);
     m_processed_records.swap(processed_records);
@@ -959,14 +960,14 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
                     assert(begin_erasure < correlations.size());
                     if (begin_erasure < correlations.size())
                     {
-                        assert(correlations.size() == m_processed_records.size());
-                        const size_t index_erase = correlations[begin_erasure].record_index;
-                        for (size_t ii = begin_erasure; ii < correlations.size(); ++ii)
-                        {
-                            if (correlations[ii].stream_index >= end_offset)
-                                break;
-                            m_processed_records.erase(m_processed_records.begin() + index_erase);
-                        }
+                        size_t end_erasure = begin_erasure;
+                        while (end_erasure < correlations.size() && correlations[end_erasure].stream_index < end_offset)
+                            ++end_erasure;
+                        const size_t index_begin = correlations[begin_erasure].record_index;
+                        const size_t index_end = (end_erasure < correlations.size() ?
+                                                  correlations[end_erasure].record_index :
+                                                  m_processed_records.size());
+                        m_processed_records.erase(m_processed_records.begin() + index_begin, m_processed_records.begin() + index_end);
                     }
                     break;
                 }
@@ -982,6 +983,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
     m_buffer_head = buffer_head;
     m_buffer_count = buffer_count;
     m_lead_surrogate = lead_surrogate;
+    m_prev_mouse_button_state = prev_mouse_button_state;
 
     // Any processed records go at the beginning of the pending record stack.
     // Then push the pre-existing pending records to keep them in proper
@@ -1292,6 +1294,8 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
 
         if (peek)
         {
+            const wchar_t lead_surrogate = m_lead_surrogate;
+            const DWORD prev_mouse_button_state = m_prev_mouse_button_state;
             if (peek_record(record))
             {
                 assert(m_pending_records.empty());
@@ -1299,6 +1303,12 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
                 m_pending_records.push_back(record);
                 return;
             }
+
+            // The record gets discarded, but if it influences the records that
+            // follow then send_terminal_request() needs to restore it, too.
+            if (s_sending_terminal_request &&
+                (m_lead_surrogate != lead_surrogate || m_prev_mouse_button_state != prev_mouse_button_state))
+                m_processed_records.push_back(record);
         }
         else
         {
-- 
2.43.0


From 924a1fbf7b8a1051e4cb84f5522ab686c321058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 53/96] fix: peeking at a pending window resize gives an
 uninitialized key

---
 clink/terminal/src/win_terminal_in.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index bc2930c..96da5c5 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1078,6 +1078,8 @@ bool win_terminal_in::peek_record(const INPUT_RECORD& record, int32* peeked)
 
     case WINDOW_BUFFER_SIZE_EVENT:
         ret = true;
+        if (peeked)
+            *peeked = terminal_in::input_none;
         break;
     }
 
-- 
2.43.0


From 5ecb3fe9a5d5f89e39d3200031e4d7e30f28df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 54/96] fix: Esc right before an escape code hides the escape
 code

---
 clink/terminal/src/ecma48_iter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 7773444..83c472f 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -476,6 +476,13 @@ bool ecma48_iter::next_csi_p(int32 c)
 //------------------------------------------------------------------------------
 bool ecma48_iter::next_esc(int32 c)
 {
+    if (c == 0x1b)
+    {
+        // Only the last ESC can be the start of an escape code.
+        m_code.m_type = ecma48_code::type_chars;
+        return true;
+    }
+
     m_iter.next();
 
     if (in_range(c, 0x40, 0x5f))
@@ -491,6 +498,7 @@ bool ecma48_iter::next_esc(int32 c)
         return true;
     }
 
+    m_code.m_type = ecma48_code::type_chars;
     m_state.state = ecma48_state_char;
     return false;
 }
-- 
2.43.0


From e3fa0d9657304498d1aeb267590a7ffbb9bae63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 55/96] fix: a mouse button released during a terminal request
 is forgotten

---
 clink/terminal/src/win_terminal_in.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 96da5c5..d8f9cd7 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1296,8 +1296,6 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
 
         if (peek)
         {
-            const wchar_t lead_surrogate = m_lead_surrogate;
-            const DWORD prev_mouse_button_state = m_prev_mouse_button_state;
             if (peek_record(record))
             {
                 assert(m_pending_records.empty());
@@ -1306,10 +1304,9 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
                 return;
             }
 
-            // The record gets discarded, but if it influences the records that
-            // follow then send_terminal_request() needs to restore it, too.
-            if (s_sending_terminal_request &&
-                (m_lead_surrogate != lead_surrogate || m_prev_mouse_button_state != prev_mouse_button_state))
+            // The record gets discarded, but it may influence the records that
+            // follow, so send_terminal_request() needs to restore it, too.
+            if (s_sending_terminal_request)
                 m_processed_records.push_back(record);
         }
         else
-- 
2.43.0


From 32c679f92badf7c275f9e9deb315871cf232a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 56/96] fix: addargunsorted fails when it adds a new argument
 position

---
 clink/lua/scripts/arguments.lua | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 41269a1..e3bb462 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1390,9 +1390,8 @@ end
 --- This is the same as <a href="#_argmatcher:addarg">_argmatcher:addarg</a>
 --- except that this disables sorting the matches.
 function _argmatcher:addargunsorted(...)
-    local list = self._args[self._nextargindex]
     self:addarg(...)
-    list.nosort = true
+    self._args[self._nextargindex - 1].nosort = true
     return self
 end
 
-- 
2.43.0


From ef16a5ec48e569bffc720fcb332564f5e1ea2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 57/96] fix: adding a linked flag fails after hideflags

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index e3bb462..8f99033 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1477,7 +1477,7 @@ end
 --- works in <a href="#_argmatcher:addarg">_argmatcher:addarg()</a> as well).
 function _argmatcher:hideflags(...)
     local flag_matcher = self._flags or _argmatcher()
-    local args = flag_matcher._args[1] or {}
+    local args = flag_matcher._args[1] or { _links = {} }
     local list = args.hidden or {}
 
     flag_matcher:_hide(list, {...})
-- 
2.43.0


From 818d97adaa2dec48e542fe0c696339d97c58f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 58/96] fix: merging a linked argument into an argmatcher
 without arguments fails

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 8f99033..2ff87d2 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1918,7 +1918,7 @@ local function merge_parsers(lhs, rhs)
     -- Get reference to the LHS's first argument table (creating it if needed).
     local lhs_arg_1 = lhs._args[1]
     if lhs_arg_1 == nil then
-        lhs_arg_1 = {}
+        lhs_arg_1 = { _links = {} }
         lhs._args[1] = lhs_arg_1
     end
 
-- 
2.43.0


From 90fe38d47789f48baea98f4281ed630e355fbe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 59/96] fix: an onalias callback that returns its own word
 never ends

---
 clink/lua/scripts/arguments.lua | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 2ff87d2..d2fca98 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -441,8 +441,8 @@ function _argreader:pop_line_state()
         if popped then
             self._line_state = popped.line_state
             self._word_index = popped.word_index
-            self._no_onalias = popped._no_onalias
-            self._stop_after = self._stop_after or popped._stop_after
+            self._no_onalias = popped.no_onalias
+            self._stop_after = self._stop_after or popped.stop_after
         end
         if not self._extra[1] then
             self._extra = nil
@@ -732,7 +732,7 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
                 end
                 if arg.onalias and
                         not last_onadvance and
-                        not (self._extra and self._extra.no_onalias) and
+                        not self._no_onalias and
                         self:has_more_words(word_index) then
                     local expanded, chain, chainhint = arg.onalias(0, word, word_index, line_state, self._user_data)
                     if expanded then
@@ -823,7 +823,7 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
         end
         if arg.onalias and
                 not last_onadvance and
-                not (self._extra and self._extra.no_onalias) and
+                not self._no_onalias and
                 self:has_more_words(word_index) then
             local expanded, chain, chainhint = arg.onalias(arg_index, word, word_index, line_state, self._user_data)
             if expanded then
-- 
2.43.0


From 94558211a587fb3c5fba5e34f6c7a7915dc1c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 60/96] fix: reset keeps the end of flags, flags anywhere, and
 chaining of an argmatcher

---
 clink/lua/scripts/arguments.lua | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index d2fca98..c30afdf 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1330,6 +1330,12 @@ function _argmatcher:reset()
     self._nextargindex = 1
     self._loop = nil
     self._no_file_generation = nil
+    self._flagsanywhere = nil
+    self._endofflags = nil
+    self._chain_command = nil
+    self._chain_command_mode = nil
+    self._chain_command_expand_aliases = nil
+    self._chain_command_hint = nil
     self._cmd_command = nil
     self._classify_func = nil
     self._init_coroutine = nil
-- 
2.43.0


From a79c60b7bff3c538c8e137be9da357ba9da0d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 61/96] fix: flags given as tables with a description are never
 offered by their prefix

---
 clink/lua/scripts/arguments.lua | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index c30afdf..73157ba 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1229,6 +1229,9 @@ end
 
 --------------------------------------------------------------------------------
 local function add_prefix(prefixes, string)
+    if type(string) == "table" then
+        string = string.match
+    end
     if string and type(string) == "string" then
         local prefix = string:sub(1, 1)
         if prefix:len() > 0 then
-- 
2.43.0


From 638850a32666d85a1416e0bd63cac755d0853de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 62/96] fix: redirections count as arguments when completing

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 73157ba..3787593 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -487,7 +487,7 @@ function _argreader:next_word(always_last_word)
 
     local last_word = self._last_word or false
     local info = ls:getwordinfo(word_index)
-    if info.redir and not always_last_word then
+    if info.redir and not (always_last_word and last_word) then
         goto retry
     end
 
-- 
2.43.0


From 2413ee3426da1b348827f56cbdc71e9b387a492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 63/96] fix: a redirection or the end of an alias hides that
 the next word is a flag

---
 clink/lua/scripts/arguments.lua | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 3787593..16a8e63 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -496,6 +496,32 @@ function _argreader:next_word(always_last_word)
     return word, word_index, ls, last_word, info
 end
 
+--------------------------------------------------------------------------------
+-- Returns the word after word_index and whether it's the last word.  Skips any
+-- redirections, and continues with the words after an expanded alias.
+function _argreader:peek_word_after(word_index)
+    local ls = self._line_state
+    local extra = not self._stop_after and self._extra
+    local depth = extra and #extra or 0
+    local i = word_index + 1
+    while true do
+        local word_count = ls:getwordcount()
+        while i <= word_count do
+            local info = ls:getwordinfo(i)
+            if not info.redir then
+                return ls:getword(i), i == word_count and depth == 0
+            end
+            i = i + 1
+        end
+        if depth == 0 then
+            return ""
+        end
+        ls = extra[depth].line_state
+        i = extra[depth].word_index
+        depth = depth - 1
+    end
+end
+
 --------------------------------------------------------------------------------
 function _argreader:lookup_link(arg, arg_index, word, word_index, line_state)
     if word and arg then
@@ -780,8 +806,8 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
         self._noflags = true
     elseif not self._noflags then
         -- Don't treat a flag prefix character by itself as a flag unless it's in the end word.
-        local next_word = line_state:getword(word_index + 1)
-        next_is_flag = matcher:_is_flag(next_word) and (next_word:byte(2) or word_index + 1 == line_state:getwordcount()) and true or nil
+        local next_word, next_is_last = self:peek_word_after(word_index)
+        next_is_flag = matcher:_is_flag(next_word) and (next_word:byte(2) or next_is_last) and true or nil
     end
 
     -- Update matcher after possible _push.
-- 
2.43.0


From 671f18df3f2bd50469921a507122346a5975f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 64/96] fix: a blank after a flag that ends with a colon counts
 as an argument

---
 clink/lua/scripts/arguments.lua | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 16a8e63..2753c37 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1014,6 +1014,11 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
                 -- Don't follow linked parser on `--foo=` flag if there's a
                 -- space after the `:` or `=` unless the cursor is on the space.
                 linked = nil
+                -- And then skip the empty word that follows the `:`.
+                local next_info = line_state:getwordinfo(word_index + 1)
+                if next_info and next_info.offset <= info.offset + info.length then
+                    self._phantomposition = true
+                end
             end
         end
         if linked then
-- 
2.43.0


From 92a1a78cb90c7cfcbd5a793efbd062c0107eda1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 65/96] fix: expanding several variables puts the cursor in the
 wrong place

---
 clink/core/src/os.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clink/core/src/os.cpp b/clink/core/src/os.cpp
index aac8c6d..4db104c 100644
--- a/clink/core/src/os.cpp
+++ b/clink/core/src/os.cpp
@@ -828,6 +828,7 @@ FILE* create_temp_file(str_base* out, const char* _prefix, const char* _ext, tem
 bool expand_env(const char* in, uint32 in_len, str_base& out, int32* point)
 {
     bool expanded = false;
+    const int32 in_point = point ? *point : 0;
 
     out.clear();
 
@@ -869,11 +870,11 @@ bool expand_env(const char* in, uint32 in_len, str_base& out, int32* point)
                 out << value.c_str();
                 expanded = true;
 
-                if (point && *point > offset)
+                if (point && in_point > offset)
                 {
                     const int32 replaced_end = int32(iter.get_pointer() - in);
-                    if (*point <= replaced_end)
-                        *point = offset + value.length();
+                    if (in_point <= replaced_end)
+                        *point = out.length();
                     else
                         *point += value.length() - (replaced_end - offset);
                 }
-- 
2.43.0


From 0d257ea5bfdba66bfade73a9bbd997ae7972fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 66/96] fix: expanding a doskey macro in parentheses loses the
 closing parenthesis

---
 clink/lib/src/doskey.cpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index 94aa04e..243fc2f 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -65,6 +65,7 @@ static bool get_alias(const wchar_t* shell_name, str_iter& in, uint32& skipped,
             uint32 len = uint32(in.get_pointer() - start);
             len = trim_trailing_parens(start, 0, len, parens);
             alias.concat(start, len);
+            in.reset_pointer(start + len);
             break;
         }
 
@@ -395,25 +396,15 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
             }
         }
     }
-    if (split)
-    {
-        // Restrict to resolve only up to the command separator.
-        const char* start = in.get_pointer();
-        const char* end = in.get_pointer() + in.length();
-        const char* ptr = find_command_end(start, int32(end - start));
-        uint32 len = uint32(ptr - in.get_pointer());
-        len = trim_trailing_parens(start, 0, len, parens);
-        command.truncate(int32(ptr - command.get_pointer()));
-        in.truncate(len);
-
-        // Consume the input up to the command separator.
-        new (&s) str_iter(ptr, int32(end - ptr));
-    }
-    else
-    {
-        // Consume the entire input.
-        new (&s) str_iter(in.get_pointer() + in.length(), 0);
-    }
+    // If split, restrict to resolve only up to the command separator.
+    // Otherwise consume the entire input.
+    const char* const in_start = in.get_pointer();
+    const char* const in_end = in_start + in.length();
+    const char* const command_end = split ? find_command_end(in_start, in.length()) : in_end;
+    const uint32 in_len = trim_trailing_parens(in_start, 0, uint32(command_end - in_start), parens);
+    command.truncate(uint32(in_start + in_len - command.get_pointer()));
+    in.truncate(in_len);
+    new (&s) str_iter(command_end, int32(in_end - command_end));
 
     // Don't do point processing if the point is outside the input.
     const bool point_in_command = (point && *point >= out_len && *point <= int32(out_len + command.length()));
@@ -624,6 +615,9 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
         *_point += out.length() - out_len;
     }
 
+    // Keep the trailing parens that match the skipped leading parens.
+    out << str_stream::range(in_start + in_len, uint32(command_end - (in_start + in_len)));
+
 #ifdef DEBUG_RESOLVEIMPL
     if (g_printer)
         g_printer->print("\x1b[u");
-- 
2.43.0


From ddbca26e1be8cde6adaff444a32ca8839cef0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 67/96] fix: matches of another line are offered after
 recalling a line of the same shape

---
 clink/lib/src/line_editor_impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/lib/src/line_editor_impl.cpp b/clink/lib/src/line_editor_impl.cpp
index 2072fe6..fb78c94 100644
--- a/clink/lib/src/line_editor_impl.cpp
+++ b/clink/lib/src/line_editor_impl.cpp
@@ -1544,6 +1544,12 @@ bool line_editor_impl::is_key_same(const key_t& prev_key, const char* prev_line,
     if (compare_cursor && prev_key.cursor_pos != next_key.cursor_pos)
         return false;
 
+    // If the preceding content is different, the keys are different.  This can
+    // occur when a command replaces the whole line, for example recalling
+    // another line from history.
+    if (prev_key.word_offset && (prev_length < prev_key.word_offset || memcmp(prev_line, next_line, prev_key.word_offset)))
+        return false;
+
     // If the key contents are different, the keys are different.  This can
     // occur in various situations.  For example when `menu-complete` replaces
     // `dir\sub1\` with `dir\sub2\`.
-- 
2.43.0


From d9faf97762339a804d71ad238c99f987bbb809e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 68/96] fix: a redirection with a digit before rem hides the
 rem command

---
 clink/lib/include/lib/cmd_tokenisers.h | 1 +
 clink/lib/src/cmd_tokenisers.cpp       | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/clink/lib/include/lib/cmd_tokenisers.h b/clink/lib/include/lib/cmd_tokenisers.h
index dfaded7..4e19b0f 100644
--- a/clink/lib/include/lib/cmd_tokenisers.h
+++ b/clink/lib/include/lib/cmd_tokenisers.h
@@ -38,6 +38,7 @@ public:
     bool test(int32 c, tokeniser_state new_state);
     bool is_first() const { return m_first; }
     void cancel() { m_failed = true; }
+    void discard_digit() { if (m_word.length() == 1) m_word.clear(); }
 private:
     str<16> m_word;
     bool m_first = false;
diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index bceb769..9e6a052 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -453,6 +453,11 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
             else if (new_state != sTxt)
                 is_arg = false;
 
+            // The digit in e.g. '2>' is part of the redirection, not of a command
+            // after it.
+            if (new_state == sDIn || new_state == sDOut)
+                cmd_state.discard_digit();
+
             if (new_state <= sDig && !is_arg && cmd_state.test(c, new_state))
             {
                 // It's a 'rem' command, so consume the rest of the line.
-- 
2.43.0


From 117bacffcd63d6972b972015f438f0c8fea17849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 69/96] fix: a redirection like '>&2' before rem hides the rem
 command

---
 clink/lib/src/cmd_tokenisers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 9e6a052..319d871 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -446,9 +446,10 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
 
             if (new_state == sARG || new_state == sVALID || new_state == sBAD)
             {
+                // What follows e.g. '>&2' is not its argument.
+                is_arg = (new_state != sVALID);
                 state = sSpc;
                 new_state = c_transition[state][input];
-                is_arg = true;
             }
             else if (new_state != sTxt)
                 is_arg = false;
-- 
2.43.0


From a04763bd72f6a37cb10787aac05257c0a7525a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 70/96] fix: a command is never recognized when another is
 queued before it is looked up

---
 clink/lib/src/recognizer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/recognizer.cpp b/clink/lib/src/recognizer.cpp
index 66d2f8e..1009ae3 100644
--- a/clink/lib/src/recognizer.cpp
+++ b/clink/lib/src/recognizer.cpp
@@ -664,9 +664,19 @@ void recognizer::proc(recognizer* r)
                 if (r->m_zombie || !r->dequeue(entry))
                 {
                     r->m_processing = false;
+                    // The queue only holds one entry, so another enqueue() can
+                    // replace an entry before it was processed.  Then a refresh
+                    // is needed so that its word gets queued again.
+                    bool replaced = false;
+                    for (const auto& pending : r->m_pending)
+                    {
+                        auto const iter = r->m_cache.find(pending.first);
+                        if (iter == r->m_cache.end() || iter->second.m_outofdate)
+                            replaced = true;
+                    }
                     r->m_pending.clear();
                     if (!r->m_zombie)
-                        r->notify_ready(false);
+                        r->notify_ready(replaced);
                     break;
                 }
                 r->m_processing = true;
-- 
2.43.0


From 808f59ba058ac1dc5f2fb71ea3100a6ad3e86b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 71/96] fix: a lookup that finishes after its line ended is
 taken as current

---
 clink/lib/src/recognizer.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/clink/lib/src/recognizer.cpp b/clink/lib/src/recognizer.cpp
index 1009ae3..39aa171 100644
--- a/clink/lib/src/recognizer.cpp
+++ b/clink/lib/src/recognizer.cpp
@@ -99,6 +99,7 @@ class recognizer
         str_moveable        m_key;
         str_moveable        m_word;
         str_moveable        m_cwd;
+        uint32              m_generation = 0;
     };
 
 public:
@@ -116,7 +117,7 @@ public:
 private:
     bool                    usable() const;
     bool                    busy() const;
-    bool                    store(const char* word, const char* file, recognition cached, bool pending=false);
+    bool                    store(const char* word, const char* file, recognition cached, bool pending=false, bool outofdate=false);
     bool                    dequeue(entry& entry);
     bool                    set_result_available(bool available);
     void                    notify_ready(bool available);
@@ -132,6 +133,7 @@ private:
     mutable std::recursive_mutex m_mutex;
     std::unique_ptr<std::thread> m_thread;
     HANDLE                  m_event = nullptr;
+    uint32                  m_generation = 0;
     bool                    m_processing = false;
     bool                    m_result_available = false;
     volatile bool           m_zombie = false;
@@ -170,6 +172,7 @@ void recognizer::clear()
     std::lock_guard<std::recursive_mutex> lock(m_mutex);
 
     m_queue.clear();
+    ++m_generation;
 
     for (auto iter = m_pending.begin(); iter != m_pending.end();)
     {
@@ -277,6 +280,7 @@ bool recognizer::enqueue(const char* key, const char* word, const char* cwd, con
             m_queue.m_key = key;
             m_queue.m_word = word;
             m_queue.m_cwd = cwd;
+            m_queue.m_generation = m_generation;
         }
 
         store(key, nullptr, cached ? *cached : recognition::unrecognized, true/*pending*/);
@@ -361,7 +365,7 @@ bool recognizer::busy() const
 }
 
 //------------------------------------------------------------------------------
-bool recognizer::store(const char* word, const char* file, recognition cached, bool pending)
+bool recognizer::store(const char* word, const char* file, recognition cached, bool pending, bool outofdate)
 {
     assert(*word);
     if (!*word)
@@ -380,7 +384,7 @@ bool recognizer::store(const char* word, const char* file, recognition cached, b
     entry.m_file = file;
     entry.m_age = time(nullptr);
     entry.m_recognition = cached;
-    entry.m_outofdate = false;
+    entry.m_outofdate = outofdate;
 
     auto const iter = map.find(word);
     if (iter != map.end())
@@ -686,8 +690,13 @@ void recognizer::proc(recognizer* r)
             str<> found;
             recognition result = r->search_for_executable(entry, found);
 
-            // Store result.
-            r->store(entry.m_key.c_str(), found.c_str(), result);
+            // Store result.  If clear() was called meanwhile then the result is
+            // already out of date (e.g. the current directory may be different).
+            {
+                std::lock_guard<std::recursive_mutex> lock(r->m_mutex);
+                const bool outofdate = (entry.m_generation != r->m_generation);
+                r->store(entry.m_key.c_str(), found.c_str(), result, false/*pending*/, outofdate);
+            }
             r->notify_ready(true);
         }
 
-- 
2.43.0


From d5aea10ef2768e378b1228a368ca3f3eba15ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 72/96] fix: removing clink's autorun entry removes other
 commands when it isn't quoted

---
 clink/app/src/loader/autorun.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index b5d4ba5..fc2d458 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -259,7 +259,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
             // Check if clink's path is quoted.  Checking the needle makes
             // sure not to get tricked by a false positive from something else
             // later on in the value.
-            quoted = !!strchr(needles[i], ' ');
+            quoted = !!strchr(needles[i], '"');
             break;
         }
     }
@@ -280,7 +280,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
     {
         i = quoted ? '\"' : ' ';
         c = tag;
-        while (c > value && c[-1] != i)
+        while (c > value && c[-1] != i && (quoted || c[-1] != '&'))
             --c;
 
         str<> lower_entry;
-- 
2.43.0


From 86949ed2223dfc63da0d4d3fefaa924a7f6e4b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 73/96] fix: removing clink's autorun entry leaves part of it
 when it has & in quotes

---
 clink/app/src/loader/autorun.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index fc2d458..4966e2c 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -268,11 +268,13 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
         return false;
 
     // Find right most extents of clink's entry.
-    c = strchr(tag, '&');
-    if (c != nullptr)
-        *right = (int32)(c - value);
-    else
-        *right = (int32)strlen(value);
+    bool inside = !!quoted;
+    for (c = tag; *c && (inside || *c != '&'); ++c)
+    {
+        if (*c == '\"')
+            inside = !inside;
+    }
+    *right = (int32)(c - value);
 
     // When enumerating users, only respond to entries referencing /this/
     // instance of clink.
-- 
2.43.0


From c38390af64f54a4b2bf084ffcc73dfb6791d5e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 74/96] fix: autorun install doesn't quote arguments that
 cmd.exe interprets

---
 clink/app/src/loader/autorun.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 4966e2c..202aacd 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -567,7 +567,7 @@ static void success_message(const char* message)
 }
 
 //------------------------------------------------------------------------------
-static bool safe_append_quoted(str_base& s, const char* append)
+static bool safe_append_quoted(str_base& s, const char* append, const char* special)
 {
     // https://devblogs.microsoft.com/oldnewthing/20100917-00/?p=12833
     // https://docs.microsoft.com/en-us/archive/blogs/twistylittlepassagesallalike/everyone-quotes-command-line-arguments-the-wrong-way
@@ -579,7 +579,7 @@ static bool safe_append_quoted(str_base& s, const char* append)
     // works on Windows.  Input like "foobar\" is ambiguous, so warning about
     // it would break input like \"foo bar\" which is correct but is parsed as
     // two separate arguments '"foo' and 'bar"'.
-    const bool space = !!strchr(append, ' ');
+    const bool space = !!strpbrk(append, special);
     if (space || strchr(append, '/') || strchr(append, '\\'))
     {
         const char* quote = strchr(append, '\"');
@@ -670,9 +670,11 @@ int32 autorun(int32 argc, char** argv)
     // Collect the remainder of the command line.
     if (function == install_autorun || function == set_autorun_value)
     {
+        // Arguments for clink need quotes if cmd.exe would interpret them.
+        const char* special = (function == install_autorun) ? " &|<>^" : " ";
         for (int32 i = optind; i < argc; ++i)
         {
-            if (!safe_append_quoted(g_clink_args, argv[i]))
+            if (!safe_append_quoted(g_clink_args, argv[i], special))
             {
                 printf("ERROR: Invalid quoting for argument '%s'.\n", argv[i]);
                 puts("Is a backslash missing?  On Windows, double backslashes before a quote.");
-- 
2.43.0


From ba156adfce5ed8c5675eed4e30524da144d56f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 75/96] fix: autorun install silently drops long arguments

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 202aacd..1061089 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -445,7 +445,7 @@ static bool install_autorun(const char* clink_path, int32 wow64)
     get_value(cmd_proc_key, "AutoRun", &key_value);
 
     i = key_value ? (int32)strlen(key_value) : 0;
-    i += 2048;
+    i += 2048 + g_clink_args.length();
     str_base new_value((char*)malloc(i), i);
     new_value.clear();
 
-- 
2.43.0


From cfb33b9a5ffec062019e6c83c1ca15594c161c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 76/96] fix: queued lines get a stray carriage return, and
 directory shortcuts don't work in them

---
 clink/app/src/host/host.cpp     | 10 +++++++---
 clink/app/src/host/host.h       |  2 +-
 clink/app/src/host/host_cmd.cpp |  8 ++------
 clink/lib/src/line_queue.cpp    |  3 ++-
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/clink/app/src/host/host.cpp b/clink/app/src/host/host.cpp
index a34b85a..db90913 100644
--- a/clink/app/src/host/host.cpp
+++ b/clink/app/src/host/host.cpp
@@ -455,7 +455,7 @@ host::~host()
 }
 
 //------------------------------------------------------------------------------
-bool host::dequeue_line(wstr_base& out, dequeue_flags& flags)
+bool host::dequeue_line(wstr_base& out, dequeue_flags& flags, bool command)
 {
     if (m_bypass_dequeue)
     {
@@ -472,8 +472,12 @@ bool host::dequeue_line(wstr_base& out, dequeue_flags& flags)
     if (!m_line_queue.dequeue_line(tmp, flags))
         return false;
 
-    if (intercept_directory(tmp.c_str(), &tmp) == intercept_result::prev_dir)
-        prev_dir_history(tmp);
+    // When the line will be shown, then edit_line() handles directory shortcuts.
+    if (command && !check_dequeue_flag(flags, dequeue_flags::show_line))
+    {
+        if (intercept_directory(tmp.c_str(), &tmp) == intercept_result::prev_dir)
+            prev_dir_history(tmp);
+    }
 
     to_utf16(out, tmp.c_str(), tmp.length());
     return true;
diff --git a/clink/app/src/host/host.h b/clink/app/src/host/host.h
index 71e5e15..a2bfe77 100644
--- a/clink/app/src/host/host.h
+++ b/clink/app/src/host/host.h
@@ -53,7 +53,7 @@ protected:
     std::unique_ptr<printer_context> make_printer_context();
     void            adjust_prompt_spacing();
     bool            edit_line(const char* prompt, const char* rprompt, str_base& out, bool edit=true);
-    bool            dequeue_line(wstr_base& out, dequeue_flags& flags);
+    bool            dequeue_line(wstr_base& out, dequeue_flags& flags, bool command);
     bool            dequeue_char(wchar_t* out);
     bool            is_suppress_title() const { return m_suppress_title; }
     void            clear_suppress_title() { m_suppress_title = false; }
diff --git a/clink/app/src/host/host_cmd.cpp b/clink/app/src/host/host_cmd.cpp
index 6d349d0..3bf90f2 100644
--- a/clink/app/src/host/host_cmd.cpp
+++ b/clink/app/src/host/host_cmd.cpp
@@ -713,7 +713,7 @@ LReturnReal:
     dequeue_flags flags = dequeue_flags::none;
     if (more_continuation || prompt == nullptr || *prompt == L'\0')
     {
-        if (hc->dequeue_line(line, flags))
+        if (hc->dequeue_line(line, flags, false/*command*/))
         {
             // When the edit_line flag is set the line should be editable.
             // But when not using the Readline editor, give up and treat the
@@ -731,12 +731,8 @@ LReturnReal:
     }
 
     // Respond with a queued line, if available.
-    if (hc->dequeue_line(line, flags))
+    if (hc->dequeue_line(line, flags, true/*command*/))
     {
-        // Trim the newline, since it gets added again further below.
-        while (line.length() && line.c_str()[line.length() - 1] == '\n')
-            line.truncate(line.length() - 1);
-
         if (check_dequeue_flag(flags, dequeue_flags::show_line))
         {
             // Need to show the line, which will also show the prompt, so no
diff --git a/clink/lib/src/line_queue.cpp b/clink/lib/src/line_queue.cpp
index 482bf67..bdf7f8c 100644
--- a/clink/lib/src/line_queue.cpp
+++ b/clink/lib/src/line_queue.cpp
@@ -133,7 +133,8 @@ bool line_queue::dequeue_line(str_base& out, dequeue_flags& flags)
     for (auto& line : queue)
         m_queued_lines.emplace_front(std::move(line), dequeue_flags::hide_prompt|dequeue_flags::no_doskey);
 
-    ensure_crlf(out);
+    // The line ending only marks the line as complete; it isn't part of the line.
+    strip_line_endings(out);
 
     return true;
 }
-- 
2.43.0


From 6a38ef87b36c2436a7e0751da5a0e420a722071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 77/96] fix: a set /p without text that follows a queued line
 is taken for a command prompt

---
 clink/app/src/host/host_cmd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/app/src/host/host_cmd.cpp b/clink/app/src/host/host_cmd.cpp
index 3bf90f2..ae2080e 100644
--- a/clink/app/src/host/host_cmd.cpp
+++ b/clink/app/src/host/host_cmd.cpp
@@ -796,6 +796,10 @@ LReturnReal:
 #endif
     }
 
+    // The captured prompt has been answered, even if the line came from the queue
+    // and wasn't edited (see the comment in edit_line about `set /p VAR=""`).
+    hc->m_prompt.clear();
+
     // ReadConsole includes the CRLF of the line that was input.
     finalize_input_line(line, read_in);
     return true;
-- 
2.43.0


From 50d9e2b3441a9feff54dec17f0bdac419ff1427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 78/96] fix: additional lines from onfilterinput are dropped
 when the line is 'cd -'

---
 clink/app/src/host/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/host/host.cpp b/clink/app/src/host/host.cpp
index db90913..2f50e64 100644
--- a/clink/app/src/host/host.cpp
+++ b/clink/app/src/host/host.cpp
@@ -1360,7 +1360,6 @@ force_reload_lua:
 
     std::list<queued_line> queue;
 
-    if (!resolved)
     {
         str_moveable next;
         doskey_alias alias;
@@ -1368,6 +1367,7 @@ force_reload_lua:
         // Doskey is implemented on the server side of a ReadConsoleW() call
         // (i.e. in conhost.exe).  Commands separated by a "$T" are returned
         // one command at a time through successive calls to ReadConsoleW().
+        if (!resolved)
         {
             m_doskey.resolve(out.c_str(), alias);
             if (alias)
-- 
2.43.0


From ac8f6bc065acaec804a7a4429e6c6b3b605f2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 79/96] fix: complete environment variables for SET in any case

---
 clink/app/scripts/set.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/scripts/set.lua b/clink/app/scripts/set.lua
index 998c2ce..db71fd9 100644
--- a/clink/app/scripts/set.lua
+++ b/clink/app/scripts/set.lua
@@ -13,7 +13,7 @@ function set_generator:generate(line_state, match_builder) -- luacheck: no unuse
         return false
     end
 
-    if line_state:getword(1) ~= "set" then
+    if line_state:getword(1):lower() ~= "set" then
         return false
     end
 
-- 
2.43.0


From ca70a54bb6adc1f5c3e26be7accade91e25acde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 80/96] fix: accepting part of a suggestion keeps the rest of
 that suggestion

---
 clink/lib/src/suggestions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/suggestions.cpp b/clink/lib/src/suggestions.cpp
index 6a96d66..6023943 100644
--- a/clink/lib/src/suggestions.cpp
+++ b/clink/lib/src/suggestions.cpp
@@ -175,6 +175,7 @@ void suggestions::clear(uint32 generation_id)
 //------------------------------------------------------------------------------
 void suggestions::set_line(const char* line, int32 length)
 {
+    m_line.clear();
     m_line.concat(line, length);
 }
 
-- 
2.43.0


From b7254d6c1c5e20f4022640f21390988fd486dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 81/96] fix: a suggestion that no longer matches the line is
 not inserted

---
 clink/lib/src/suggestions.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/clink/lib/src/suggestions.cpp b/clink/lib/src/suggestions.cpp
index 6023943..c99d313 100644
--- a/clink/lib/src/suggestions.cpp
+++ b/clink/lib/src/suggestions.cpp
@@ -645,6 +645,19 @@ bool suggestion_manager::insert(suggestion_action action)
         return !orig_iter.more();
     }
 
+    // Input may have been typed or erased since the suggestion was generated.
+    // If the suggestion doesn't match up through the end of the line anymore,
+    // then it must not be inserted.
+    if (max(first_suggestion.m_suggestion_offset, m_endword_offset) > g_rl_buffer->get_length())
+        return false;
+    {
+        str_iter orig_iter(g_rl_buffer->get_buffer() + first_suggestion.m_suggestion_offset, g_rl_buffer->get_length() - first_suggestion.m_suggestion_offset);
+        str_iter sugg_iter(first_suggestion.m_suggestion.c_str(), first_suggestion.m_suggestion.length());
+        str_compare<char, false/*compute_lcd*/, true/*exact_slash*/>(orig_iter, sugg_iter);
+        if (orig_iter.more())
+            return false;
+    }
+
     // Reset suggestion iterator.
     new (&m_iter) str_iter(first_suggestion.m_suggestion.c_str(), first_suggestion.m_suggestion.length());
 
-- 
2.43.0


From 751ec5f8178aa217114f8a46306d2daf62fa57a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 82/96] fix: accepting a full word of a suggestion knows about
 quotes before it

---
 clink/lib/src/suggestions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/suggestions.cpp b/clink/lib/src/suggestions.cpp
index c99d313..6d60953 100644
--- a/clink/lib/src/suggestions.cpp
+++ b/clink/lib/src/suggestions.cpp
@@ -685,9 +685,9 @@ bool suggestion_manager::insert(suggestion_action action)
         const uint32 len = g_rl_buffer->get_length();
         if (m_endword_offset > 0)
             quote = (g_rl_buffer->get_buffer()[m_endword_offset - 1] == '"');
-        if (replace_offset < len)
+        if (m_endword_offset < len)
         {
-            str_iter orig_iter(g_rl_buffer->get_buffer() + replace_offset, g_rl_buffer->get_length() - replace_offset);
+            str_iter orig_iter(g_rl_buffer->get_buffer() + m_endword_offset, g_rl_buffer->get_length() - m_endword_offset);
             const char* const inflection = g_rl_buffer->get_buffer() + first_suggestion.m_suggestion_offset;
             const char* const target = g_rl_buffer->get_buffer() + len;
             while (orig_iter.get_pointer() < target)
-- 
2.43.0


From 327da93bde6f16bf0d1b4d5c73fb41f79334b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 83/96] fix: turning the wheel up before the first item of the
 suggestion list

With nothing selected the index became less than -1, and as many more keys
were needed to get to the first suggestion.
---
 clink/lib/src/suggestionlist_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/suggestionlist_impl.cpp b/clink/lib/src/suggestionlist_impl.cpp
index b6aed30..89e77df 100644
--- a/clink/lib/src/suggestionlist_impl.cpp
+++ b/clink/lib/src/suggestionlist_impl.cpp
@@ -586,7 +586,7 @@ do_mouse_position:
             const int32 prev_index = m_index;
             const int32 prev_top = m_top;
             if (input.id == bind_id_suggestionlist_wheelup)
-                m_index -= min<uint32>(y, p0);
+                m_index -= min<uint32>(max<int32>(y, 0), p0);
             else
                 m_index += min<uint32>(m_count - 1 - y, p0);
 
-- 
2.43.0


From ce9a31beb1354d7a732f81b75ac13bacde547bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 84/96] fix: choosing from the suggestion list inserts the
 suggestion as listed

When the line had been edited before its end since the suggestions were
generated, the suggestion was put at its old offset in the edited line.
---
 clink/lib/src/suggestionlist_impl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/suggestionlist_impl.cpp b/clink/lib/src/suggestionlist_impl.cpp
index 89e77df..710cffe 100644
--- a/clink/lib/src/suggestionlist_impl.cpp
+++ b/clink/lib/src/suggestionlist_impl.cpp
@@ -1340,8 +1340,13 @@ void suggestionlist_impl::apply_suggestion(int32 index)
     {
         const suggestion& suggestion = m_suggestions[index];
         m_buffer->begin_undo_group();
-        m_buffer->remove(suggestion.m_suggestion_offset, m_buffer->get_length());
-        m_buffer->set_cursor(suggestion.m_suggestion_offset);
+        // The line may have been edited since the suggestions were generated,
+        // if the cursor isn't at the end of the line.
+        str_moveable prefix;
+        prefix.concat(m_suggestions.get_line().c_str(), suggestion.m_suggestion_offset);
+        m_buffer->remove(0, m_buffer->get_length());
+        m_buffer->set_cursor(0);
+        m_buffer->insert(prefix.c_str());
         m_buffer->insert(suggestion.m_suggestion.c_str());
         m_buffer->end_undo_group();
 
-- 
2.43.0


From 99604a81cedecef5036b6501fe219730c18a5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 85/96] fix: the wheel types characters when the suggestion
 list has no room

The list accepted the mouse input but can't use it while not visible.
---
 clink/lib/src/suggestionlist_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/suggestionlist_impl.cpp b/clink/lib/src/suggestionlist_impl.cpp
index 710cffe..c2bfada 100644
--- a/clink/lib/src/suggestionlist_impl.cpp
+++ b/clink/lib/src/suggestionlist_impl.cpp
@@ -1513,7 +1513,7 @@ bool suggestionlist_impl::accepts_mouse_input(mouse_input_type type) const
     case mouse_input_type::left_click:
     case mouse_input_type::wheel:
     case mouse_input_type::drag:
-        return is_active() && m_count > 0;
+        return is_active() && m_count > 0 && m_visible_rows > 0;
     default:
         return false;
     }
-- 
2.43.0


From dc262b90ecb142e1b6007f9dce3ff17e85b08941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:44 +0000
Subject: [PATCH 86/96] fix: a hint doesn't scroll the terminal when the input
 line fills it

---
 clink/lib/src/display_readline.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index d2654eb..8f2847c 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2158,7 +2158,7 @@ void display_manager::display()
     }
 
     // Maybe show input hint.
-    if (need_update && can_show_comment_row && _rl_vis_botlin < _rl_screenheight)
+    if (need_update && can_show_comment_row && _rl_vis_botlin + 1 < _rl_screenheight)
     {
         str_moveable in;
         if (m_forced_comment_row_cursorpos == rl_point)
@@ -2213,9 +2213,10 @@ void display_manager::display()
         }
     }
 
-    if (m_curr.has_comment_row() != next->has_comment_row() ||
-        strcmp(m_curr.get_comment_row(), next->get_comment_row()) ||
-        (new_botlin != old_botlin && _rl_vis_botlin + 1 < _rl_screenheight))
+    if (_rl_vis_botlin + 1 < _rl_screenheight &&
+        (m_curr.has_comment_row() != next->has_comment_row() ||
+         strcmp(m_curr.get_comment_row(), next->get_comment_row()) ||
+         new_botlin != old_botlin))
     {
         bool reset_col = false;
 
-- 
2.43.0


From c41afb8b527e9278f1dc255f237c4d08e3e62cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:44 +0000
Subject: [PATCH 87/96] fix: no stale comment row when the prompt is
 redisplayed for a modified line mark

---
 clink/lib/src/display_readline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 8f2847c..2166846 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2026,6 +2026,11 @@ void display_manager::display()
     {
         assert(need_update); // See is_CJK_codepage usage below...
 
+        // The display loses track of the comment row, so erase it.  When
+        // s_defer_erase_extra_lines is set, it gets erased later.
+        if (forced_display && !s_defer_erase_extra_lines)
+            clear_comment_row_internal();
+
         move_to_row(0);
         move_to_column(0, true/*force*/);
 
-- 
2.43.0


From 1bd97c200b5fe532aaab8892e3ab7a9fda611d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:44 +0000
Subject: [PATCH 88/96] fix: cursor column after a modified line was shown
 scrolled

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 2166846..2fa3908 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1950,6 +1950,7 @@ void display_manager::display()
         m_last_prompt_line_force_wrap = mc.get_force_wrap();
         m_last_prompt_line_width = mc.get_column();
         m_last_prompt_line_botlin = mc.get_line_count() - 1;
+        m_last_modmark = modmark;
     }
 
     // Activate horizontal scroll mode when requested or when necessary.
@@ -2087,7 +2088,6 @@ void display_manager::display()
         dbg_ignore_scope(snapshot, "display_readline");
 
         m_last_prompt_line = prompt;
-        m_last_modmark = modmark;
     }
 
     // From here on, use move_to_row/move_to_column/print/etc so that the
-- 
2.43.0


From 44424235104cea97adb603e56a9d7a306e60f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:09 +0000
Subject: [PATCH 89/96] fix: removing history when the history is empty looked
 at a stale entry

---
 readline/readline/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 614428f..68ebcfc 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -965,7 +965,7 @@ rl_remove_history (int count, int key)
 
   /* Bail out if the input buffer doesn't match the history entry. */
   HIST_ENTRY **list = history_list ();
-  HIST_ENTRY *hist = list ? list[old_where] : 0;
+  HIST_ENTRY *hist = (list && old_where < history_length) ? list[old_where] : 0;
   if (!hist || (current_history () && rl_undo_list) || strcmp (rl_line_buffer, hist->line))
     {
       rl_ding ();
-- 
2.43.0


From a1b1255ef00cd1c9ea2f80197cc86384fa1cc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 90/96] fix: Up at the oldest history line lost the undo list
 of its edits

---
 readline/readline/misc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 68ebcfc..7e89836 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -779,6 +779,12 @@ rl_get_previous_history (int count, int key)
 
   r = _rl_previous_history_internal (count);
 
+/* begin_clink_change */
+  /* The current line stays, so it needs to stay linked with its undo list. */
+  if (r == 0 && current_history ())
+    rl_undo_list = (UNDO_LIST *)current_history ()->data;
+/* end_clink_change */
+
   if (r == 0 && had_saved_line == 0)	/* failed to find previous history */
     _rl_free_saved_history_line ();
 
-- 
2.43.0


From e734b420ddbcf5d12058e79db004d19b898abac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 91/96] fix: Down after a sticky search did not keep the line
 that was typed

---
 readline/readline/misc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 7e89836..1904969 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -682,6 +682,13 @@ rl_get_next_history (int count, int key)
   if (count == 0)
     return 0;
 
+/* begin_clink_change */
+  /* When the history position is already on a history line that isn't shown,
+     then the current line needs to be saved before leaving it. */
+  if (history_prev_use_curr)
+    rl_maybe_save_line ();
+/* end_clink_change */
+
   /* If the current line has changed, save the changes. */
 #if 0	/* XXX old code can leak or corrupt rl_undo_list */
   rl_maybe_replace_line ();
-- 
2.43.0


From 571eab5e08885797d7acd008b31b99eada462142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 92/96] fix: cursor was beyond the end of the line after a
 failed history search

---
 readline/readline/search.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readline/readline/search.c b/readline/readline/search.c
index ad6ff3e..994f169 100644
--- a/readline/readline/search.c
+++ b/readline/readline/search.c
@@ -764,6 +764,8 @@ rl_history_search_internal (int count, int dir)
       rl_mark = rl_end;				/* XXX */
 /* begin_clink_change */
       rl_maybe_swap_point_and_mark ();
+      /* The line may have been cleared meanwhile, by rl_remove_history(). */
+      _rl_fix_point (1);
 /* end_clink_change */
 #endif
       return 1;
-- 
2.43.0


From 91ef4cd593f040892dced650c3a18858b359a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 93/96] fix: history expansion used a stale cached event after
 the history changed

---
 readline/readline/histexpand.c |  8 ++++++++
 readline/readline/histlib.h    |  1 +
 readline/readline/history.c    | 13 +++++++++++++
 readline/readline/misc.c       |  3 +++
 4 files changed, 25 insertions(+)

diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index 5395d8c..733730f 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -124,6 +124,14 @@ int history_return_expansions = 0;
 
 /* Cache the most recent history event lookup. */
 history_event_lookup_cache_t history_event_lookup_cache = { 0 };
+
+/* The cached event is stale once the history list changes. */
+void
+_hs_clear_event_lookup_cache (void)
+{
+  xfree ((char *)history_event_lookup_cache.search_string);
+  memset (&history_event_lookup_cache, 0, sizeof (history_event_lookup_cache));
+}
 /* end_clink_change */
 
 int history_quoting_state = 0;
diff --git a/readline/readline/histlib.h b/readline/readline/histlib.h
index 621e3c7..8101505 100644
--- a/readline/readline/histlib.h
+++ b/readline/readline/histlib.h
@@ -96,6 +96,7 @@ typedef struct {
   int successful;
 } history_event_lookup_cache_t;
 extern history_event_lookup_cache_t history_event_lookup_cache;
+extern void _hs_clear_event_lookup_cache (void);
 /* end_clink_change */
 
 /* history.c */
diff --git a/readline/readline/history.c b/readline/readline/history.c
index 70b1342..d7e8fb7 100644
--- a/readline/readline/history.c
+++ b/readline/readline/history.c
@@ -305,6 +305,10 @@ add_history (const char *string)
   HIST_ENTRY *temp;
   int new_length;
 
+/* begin_clink_change */
+  _hs_clear_event_lookup_cache ();
+/* end_clink_change */
+
   if (history_stifled && (history_length == history_max_entries))
     {
       /* If the history is stifled, and history_length is zero,
@@ -415,6 +419,9 @@ replace_history_entry (int which, const char *line, histdata_t data)
     return ((HIST_ENTRY *)NULL);
 
   temp = (HIST_ENTRY *)xmalloc (sizeof (HIST_ENTRY));
+/* begin_clink_change */
+  _hs_clear_event_lookup_cache ();
+/* end_clink_change */
   old_value = the_history[which];
 
   temp->line = savestring (line);
@@ -538,6 +545,9 @@ remove_history (int which)
   if (which < 0 || which >= history_length || history_length ==  0 || the_history == 0)
     return ((HIST_ENTRY *)NULL);
 
+/* begin_clink_change */
+  _hs_clear_event_lookup_cache ();
+/* end_clink_change */
   return_value = the_history[which];
 
 #if 1
@@ -572,6 +582,9 @@ remove_history_range (int first, int last)
   if (first > last)
     return (HIST_ENTRY **)NULL;
 
+/* begin_clink_change */
+  _hs_clear_event_lookup_cache ();
+/* end_clink_change */
   nentries = last - first + 1;
   return_value = (HIST_ENTRY **)malloc ((nentries + 1) * sizeof (HIST_ENTRY *));
   if (return_value == 0)
diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 1904969..6775825 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -548,6 +548,9 @@ _rl_revert_previous_lines (void)
 	    rl_do_undo ();
 	  /* And copy the reverted line back to the history entry, preserving
 	     the timestamp. */
+/* begin_clink_change */
+	  _hs_clear_event_lookup_cache ();
+/* end_clink_change */
 	  FREE (entry->line);
 	  entry->line = savestring (rl_line_buffer);
 	}
-- 
2.43.0


From 897f219ef95f00cc11972257a9225d0ceadb2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 94/96] fix: previewing history expansion changed what :&
 repeats, and !?? forgot the search

---
 clink/lib/src/history_db.cpp   | 10 +++++++---
 readline/readline/histexpand.c | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 8980802..307b4a6 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -2023,8 +2023,11 @@ history_db::line_id history_db::find(const char* line) const
 history_db::expand_result history_db::expand(const char* line, str_base& out)
 {
     // The history expansion library can have side effects on the global
-    // history variables.  Must save and restore them.
-    save_history_expansion_state();
+    // history variables.  Must save and restore the history position.  But the
+    // search string and substitution must be kept, because the next expansion
+    // can refer to them.
+    const int32 old_offset = where_history();
+    const int32 old_prev_use_curr = history_prev_use_curr;
 
     // Reset history offset so expansion is always relative to the end of
     // the history list.
@@ -2038,7 +2041,8 @@ history_db::expand_result history_db::expand(const char* line, str_base& out)
     free(expanded);
 
     // Restore the global history variables.
-    restore_history_expansion_state();
+    history_set_pos(old_offset);
+    history_prev_use_curr = old_prev_use_curr;
 
     return expand_result(result);
 }
diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index 733730f..663e1df 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -171,16 +171,26 @@ static int saved_history_offset = -1;
 static int saved_history_prev_use_curr = 0;
 static char *saved_search_string = NULL;
 static char *saved_search_match = NULL;
+static char *saved_subst_lhs = NULL;
+static char *saved_subst_rhs = NULL;
+static int saved_subst_lhs_len = 0;
+static int saved_subst_rhs_len = 0;
 
 void
 save_history_expansion_state (void)
 {
   xfree (saved_search_string);
   xfree (saved_search_match);
+  xfree (saved_subst_lhs);
+  xfree (saved_subst_rhs);
   saved_history_offset = history_offset;
   saved_history_prev_use_curr = history_prev_use_curr;
   saved_search_string = search_string ? savestring (search_string) : NULL;
   saved_search_match = search_match ? savestring (search_match) : NULL;
+  saved_subst_lhs = subst_lhs ? savestring (subst_lhs) : NULL;
+  saved_subst_rhs = subst_rhs ? savestring (subst_rhs) : NULL;
+  saved_subst_lhs_len = subst_lhs_len;
+  saved_subst_rhs_len = subst_rhs_len;
 }
 
 void
@@ -188,14 +198,22 @@ restore_history_expansion_state (void)
 {
   xfree (search_string);
   xfree (search_match);
+  xfree (subst_lhs);
+  xfree (subst_rhs);
   history_offset = saved_history_offset;
   history_prev_use_curr = saved_history_prev_use_curr;
   search_string = saved_search_string;
   search_match = saved_search_match;
+  subst_lhs = saved_subst_lhs;
+  subst_rhs = saved_subst_rhs;
+  subst_lhs_len = saved_subst_lhs_len;
+  subst_rhs_len = saved_subst_rhs_len;
   saved_history_offset = -1;
   saved_history_prev_use_curr = 0;
   saved_search_string = NULL;
   saved_search_match = NULL;
+  saved_subst_lhs = NULL;
+  saved_subst_rhs = NULL;
 }
 
 static history_expansion**
-- 
2.43.0


From 44917a67c79ee7dc15fbc3220355bb3961867434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 95/96] fix: substitution in history expansion read past the
 end of the line

---
 readline/readline/histexpand.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index 663e1df..ec75f4f 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -601,7 +601,10 @@ get_subst_pattern (const char *str, int *iptr, int delimiter, int is_rhs, int *l
 	int v;
 	if ((v = _rl_get_char_len (str + si, &ps)) > 1)
 	  si += v - 1;
-	else if (str[si] == '\\' && str[si + 1] == delimiter)
+/* begin_clink_change */
+	//else if (str[si] == '\\' && str[si + 1] == delimiter)
+	else if (str[si] == '\\' && str[si + 1] && str[si + 1] == delimiter)
+/* end_clink_change */
 	  si++;
       }
     else
-- 
2.43.0


From d9c112a9946d5e6fd492b982f35c6a787fa0dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:59 +0000
Subject: [PATCH 96/96] fix: listing matches put a second column where
 descriptions fill the line

---
 clink/lib/src/display_matches.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_matches.cpp b/clink/lib/src/display_matches.cpp
index 0db6b6e..fa36a77 100644
--- a/clink/lib/src/display_matches.cpp
+++ b/clink/lib/src/display_matches.cpp
@@ -892,7 +892,9 @@ static int32 display_match_list_internal(const match_adapter& adapter, const col
 
     const int32 cols = __complete_get_screenwidth();
     const int32 show_descriptions = adapter.has_descriptions();
-    const int32 limit = widths.num_columns();
+    // Descriptions that aren't right justified extend to the edge of the screen,
+    // so there's only room for one column.
+    const int32 limit = (show_descriptions && !widths.m_right_justify) ? 1 : widths.num_columns();
     assert(limit > 0);
 
     // How many iterations of the printing loop?
-- 
2.43.0

