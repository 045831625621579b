From b4d6c776e6e1da678ddc2a2f2f451214a5dc3f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 01/35] fix: string map: do not lose pairs when shrinking after
 keys were removed

---
 src/string_map.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/string_map.c b/src/string_map.c
index 47688e0..2091674 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -180,6 +180,23 @@ rcutils_string_map_reserve(rcutils_string_map_t * string_map, size_t capacity)
       return RCUTILS_RET_BAD_ALLOC;
     }
 
+    // if shrinking, first move the existing pairs into the slots that will remain, because
+    // removed pairs leave unused slots behind
+    if (capacity < string_map->impl->capacity) {
+      size_t next_index = 0;
+      for (size_t i = 0; i < string_map->impl->capacity; ++i) {
+        if (string_map->impl->key_value_pairs[i].key == NULL) {
+          continue;
+        }
+        if (i != next_index) {
+          string_map->impl->key_value_pairs[next_index] = string_map->impl->key_value_pairs[i];
+          string_map->impl->key_value_pairs[i].key = NULL;
+          string_map->impl->key_value_pairs[i].value = NULL;
+        }
+        ++next_index;
+      }
+    }
+
     // resize the keys and values, assigning the result only if it succeeds
     key_value_pair_t * new_key_value_pairs = allocator.reallocate(
       string_map->impl->key_value_pairs, capacity * sizeof(key_value_pair_t), allocator.state);
-- 
2.43.0


From f79dd222b6d0780a9611a9b887d0175e6e6ff026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 02/35] fix: string map: getn and key_existsn compare exactly
 key_length characters

---
 src/string_map.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/string_map.c b/src/string_map.c
index 2091674..46ee8d9 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -272,11 +272,10 @@ __get_index_of_key_if_exists(
     if (NULL == string_map_impl->key_value_pairs[i].key) {
       continue;
     }
-    size_t cmp_count = strlen(string_map_impl->key_value_pairs[i].key);
-    if (key_length > cmp_count) {
-      cmp_count = key_length;
-    }
-    if (strncmp(key, string_map_impl->key_value_pairs[i].key, cmp_count) == 0) {
+    // the given key need not be null terminated, so never look beyond its length
+    if (strlen(string_map_impl->key_value_pairs[i].key) == key_length &&
+      strncmp(key, string_map_impl->key_value_pairs[i].key, key_length) == 0)
+    {
       *index = i;
       return true;
     }
-- 
2.43.0


From 1c092c46b387043b5786211edda7aaa06032b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 03/35] fix: char array: forget the released buffer when
 resizing fails

---
 src/char_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 76743d1..f9eb9ba 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -106,6 +106,10 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
     RCUTILS_CHECK_FOR_NULL_WITH_MSG(
       new_buf,
       "failed to reallocate memory for char array",
+      // rcutils_reallocf released the old buffer
+      char_array->buffer = NULL;
+      char_array->buffer_capacity = 0lu;
+      char_array->buffer_length = 0lu;
       return RCUTILS_RET_BAD_ALLOC);
     char_array->buffer = new_buf;
   } else {  // we don't realloc memory we don't own. instead, we alloc some new space
-- 
2.43.0


From c2f6f2e196cbb8af8e97bacc372bf0a1bb696769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 04/35] fix: char array: do not write before the buffer when
 growing from capacity zero

---
 src/char_array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index f9eb9ba..1327d90 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -118,8 +118,10 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
       return ret;
     }
     size_t n = MIN(new_size, old_size);
-    memcpy(char_array->buffer, old_buf, n);
-    char_array->buffer[n - 1] = '\0';  // always have an ending
+    if (n > 0lu) {
+      memcpy(char_array->buffer, old_buf, n);
+      char_array->buffer[n - 1] = '\0';  // always have an ending
+    }
   }
 
   char_array->buffer_capacity = new_size;
-- 
2.43.0


From c5bcf4e722989b014c514891ac05214007132ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 05/35] fix: char array: strncat appends no more than the whole
 source string

---
 src/char_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 1327d90..7277107 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -226,6 +226,10 @@ rcutils_char_array_strncat(rcutils_char_array_t * char_array, const char * src,
     // The buffer length always contains the trailing \0, so the strlen is one less than that.
     current_strlen = char_array->buffer_length - 1;
   }
+  const char * src_end = memchr(src, '\0', n);
+  if (src_end != NULL) {
+    n = (size_t)(src_end - src);  // like strncat, append at most the whole of src
+  }
   size_t new_length = current_strlen + n + 1;
   rcutils_ret_t ret = rcutils_char_array_expand_as_needed(char_array, new_length);
   if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From 10a7c9d20734215beb867d7336025956530e3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 06/35] fix: join_path: do not cut paths longer than 2047
 characters short

---
 src/filesystem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 25c71d7..0f6bd4f 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -182,8 +182,9 @@ rcutils_join_path(
     return NULL;
   }
 
-  return rcutils_format_string(
+  return rcutils_format_string_limit(
     allocator,
+    strlen(left_hand_path) + strlen(RCUTILS_PATH_DELIMITER) + strlen(right_hand_path) + 1,
     "%s%s%s",
     left_hand_path, RCUTILS_PATH_DELIMITER, right_hand_path);
 }
-- 
2.43.0


From a1cfdc772c4ee28d97a8ada9ae6ef8eb30b1b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 07/35] fix: executable name: do not write past the buffer when
 the program name is empty

---
 src/process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.c b/src/process.c
index b93ed9f..f08ec5a 100644
--- a/src/process.c
+++ b/src/process.c
@@ -79,7 +79,8 @@ char * rcutils_get_executable_name(rcutils_allocator_t allocator)
 
   // Since the above memory may be static, and the caller may want to modify
   // the argument, make and return a copy here.
-  char * executable_name = allocator.allocate(applen + 1, allocator.state);
+  // One more than its length and terminator: the base name of an empty name is ".".
+  char * executable_name = allocator.allocate(applen + 2, allocator.state);
   if (NULL == executable_name) {
     return NULL;
   }
-- 
2.43.0


From 74d3c1cf960a6110442378414fda6029d457625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 08/35] fix: split_last: terminate the first token when it is
 empty

---
 src/split.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split.c b/src/split.c
index 98c4783..449518a 100644
--- a/src/split.c
+++ b/src/split.c
@@ -180,7 +180,8 @@ rcutils_split_last(
      * found_last is the index of the the last position the delimiter was found
      * and not the actual position in terms of counting from 1
      */
-    size_t inner_rhs_offset = (str[found_last - 1] == delimiter) ? 1 : 0;
+    size_t inner_rhs_offset =
+      (found_last > lhs_offset && str[found_last - 1] == delimiter) ? 1 : 0;
     string_array->data[0] = allocator.allocate(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
-- 
2.43.0


From ba4e82090d6a8395687b084c4215ffa69437d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 09/35] fix: reallocf: do not release the memory twice when the
 new size is zero

---
 src/allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocator.c b/src/allocator.c
index d364bde..c101f4e 100644
--- a/src/allocator.c
+++ b/src/allocator.c
@@ -110,7 +110,8 @@ rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator)
     return NULL;
   }
   void * new_pointer = allocator->reallocate(pointer, size, allocator->state);
-  if (NULL == new_pointer) {
+  // As with reallocf, reallocating to size zero has already released the memory.
+  if (NULL == new_pointer && 0 != size) {
     allocator->deallocate(pointer, allocator->state);
   }
   return new_pointer;
-- 
2.43.0


From 3644ad799bc0f6341d972bc515cde3cb79da50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 10/35] fix: error handling: initializing the thread-local
 storage late keeps the error already set

---
 src/error_handling.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error_handling.c b/src/error_handling.c
index a060537..061f474 100644
--- a/src/error_handling.c
+++ b/src/error_handling.c
@@ -219,6 +219,7 @@ rcutils_set_error_state(
     .str = "\0"
   };
   gtls_rcutils_error_is_set = true;
+  gtls_rcutils_thread_local_initialized = true;
 }
 
 bool
-- 
2.43.0


From a2a0276134afe781659969b6b48a58619848428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 11/35] fix: logging: release the copied name when a logger
 level cannot be stored

---
 src/logging.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 7aac274..5a8d0a9 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -917,6 +917,11 @@ static rcutils_ret_t add_key_to_hash_map(const char * name, int level, bool set_
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
       "Error setting severity level for logger named '%s': %s",
       name, rcutils_get_error_string().str);
+    if (!already_exists) {
+      // The map did not take the copy.
+      g_rcutils_logging_allocator.deallocate(
+        (char *)copy_name, g_rcutils_logging_allocator.state);
+    }
     return RCUTILS_RET_ERROR;
   }
 
-- 
2.43.0


From f286465fc1dad99ffb9362c5552d3fe2ee443c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 12/35] fix: logging: looking up a level does not read past a
 name that is not terminated

---
 src/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 5a8d0a9..0389b8e 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -962,7 +962,9 @@ int rcutils_logging_get_logger_leveln(const char * name, size_t name_length)
   char * short_name = rcutils_strndup(name, name_length, g_rcutils_logging_allocator);
   if (short_name == NULL) {
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
-      "Failed to allocate memory when looking up logger level for '%s'", name);
+      "Failed to allocate memory when looking up logger level for '%.*s'",
+      (int)(name_length < RCUTILS_ERROR_MESSAGE_MAX_LENGTH ?
+      name_length : RCUTILS_ERROR_MESSAGE_MAX_LENGTH), name);
     return -1;
   }
 
-- 
2.43.0


From f5bc790b58e76bc2e2a682e4531ac0c85c109b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 13/35] fix: logging: a logger level that cannot be set leaves
 the previous one in force

---
 src/logging.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 0389b8e..f4291bf 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1129,11 +1129,9 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       char * previous_key = key;
       bool free_current_key = false;
       if (key != NULL && strncmp(name, key, name_length) == 0) {
-        // If this is the key we are replacing, unconditionally remove it from the hash map;
-        // we'll be adding it back as a user-set level anyway
-        if (key[name_length] == '\0') {
-          free_current_key = true;
-        } else {
+        // If this is the key we are replacing, leave it in the hash map: its level is overwritten
+        // below, which cannot fail, so that an error never loses the level it had.
+        if (key[name_length] != '\0') {
           // Otherwise, this is a descendant; only remove it from the hash map
           // if we cached it (the user didn't explicitly set it).
           if (!(tmp_level & 0x1)) {
@@ -1180,7 +1178,7 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       name, rcutils_get_error_string().str);
   }
 
-  if (name_length == 0) {
+  if (add_key_ret == RCUTILS_RET_OK && name_length == 0) {
     // If the name was empty, this also means we should update the default logger level
     g_rcutils_logging_default_logger_level = level;
   }
-- 
2.43.0


From 1a61d036006441472a2561a4bdc75bcd6e40a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 14/35] fix: logging: keep unknown escape sequences of the
 output format, and read nothing outside it

---
 src/logging.c | 101 ++++++++++++++++++++++++--------------------------
 1 file changed, 48 insertions(+), 53 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index f4291bf..1084592 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -460,9 +460,6 @@ static void create_format_string(
   const char * logging_output_format_string)
 {
   size_t dest_buffer_index = 0;
-  size_t start_offset = 0;
-  size_t start_offset_previous_not_copy = 0;
-  size_t back_slash_index = 0;
 
   size_t length = strlen(logging_output_format_string);
   if (length > RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN - 1) {
@@ -470,63 +467,61 @@ static void create_format_string(
   }
 
   for (size_t i = 0; i < length; ) {
-    back_slash_index = rcutils_findn(
+    size_t back_slash_index = rcutils_findn(
       logging_output_format_string + i, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
-    if (back_slash_index == SIZE_MAX) {
-      memcpy(
-        g_rcutils_logging_output_format_string + dest_buffer_index,
-        logging_output_format_string + start_offset - start_offset_previous_not_copy,
-        length - start_offset + start_offset_previous_not_copy);
+    // copy everything up to the next backslash, or up to the end if there is none
+    size_t len = back_slash_index == SIZE_MAX ? length - i : back_slash_index;
+    memcpy(
+      g_rcutils_logging_output_format_string + dest_buffer_index,
+      logging_output_format_string + i,
+      len);
+    dest_buffer_index += len;
+    i += len;
+    if (i >= length) {
       break;
-    } else {
-      const char * expected_char = NULL;
-      int skip_chars = 0;
-
-      if (logging_output_format_string[i + back_slash_index + 1] == 'x' &&
-        logging_output_format_string[i + back_slash_index + 2] == '1' &&
-        logging_output_format_string[i + back_slash_index + 3] == 'b')
-      {
-        // detect escape sequence
-        ACTIVATE_VIRTUAL_TERMINAL_PROCESSING();
-        expected_char = "\x1b";
-        // the 4 char long "\x1b" string literal will become a 2 char long \x1b escape sequence
-        // therefore we need to skip forward in parsing the output format string
-        skip_chars = 2;
-      } else {
-        switch (logging_output_format_string[i + back_slash_index + 1]) {
-          case 'a':  expected_char = "\a"; break;  // alert
-          case 'b':  expected_char = "\b"; break;  // backspace
-          case 'n':  expected_char = "\n"; break;  // new line
-          case 'r':  expected_char = "\r"; break;  // carriage return
-          case 't':  expected_char = "\t"; break;  // horizontal tab
-          default:
-            break;
-        }
-      }
+    }
 
-      if (expected_char) {
-        if (back_slash_index > 0) {
-          // copy previous buffer first
-          size_t len = back_slash_index + start_offset_previous_not_copy;
-          memcpy(
-            g_rcutils_logging_output_format_string + dest_buffer_index,
-            logging_output_format_string + start_offset,
-            len);
-          dest_buffer_index += len;
-          start_offset += len;
-          start_offset_previous_not_copy = 0;
-        }
+    const char * expected_char = NULL;
+    // the number of characters of the escape sequence, including the backslash
+    size_t sequence_length = 2;
 
-        // copy the decoded character
-        g_rcutils_logging_output_format_string[dest_buffer_index] = expected_char[0];
-        dest_buffer_index += 1;
-        start_offset += 2 + skip_chars;
-      } else {
-        start_offset_previous_not_copy += (back_slash_index + 2);
+    if (logging_output_format_string[i + 1] == 'x' &&
+      logging_output_format_string[i + 2] == '1' &&
+      logging_output_format_string[i + 3] == 'b')
+    {
+      // detect escape sequence
+      ACTIVATE_VIRTUAL_TERMINAL_PROCESSING();
+      expected_char = "\x1b";
+      // the 4 char long "\x1b" string literal will become a 1 char long \x1b escape sequence
+      sequence_length = 4;
+    } else {
+      switch (logging_output_format_string[i + 1]) {
+        case 'a':  expected_char = "\a"; break;  // alert
+        case 'b':  expected_char = "\b"; break;  // backspace
+        case 'n':  expected_char = "\n"; break;  // new line
+        case 'r':  expected_char = "\r"; break;  // carriage return
+        case 't':  expected_char = "\t"; break;  // horizontal tab
+        default:
+          break;
       }
+    }
 
-      i += (back_slash_index + 2 + skip_chars);
+    if (expected_char) {
+      // copy the decoded character
+      g_rcutils_logging_output_format_string[dest_buffer_index] = expected_char[0];
+      dest_buffer_index += 1;
+    } else {
+      // not an escape sequence: copy it as it is
+      if (sequence_length > length - i) {
+        sequence_length = length - i;
+      }
+      memcpy(
+        g_rcutils_logging_output_format_string + dest_buffer_index,
+        logging_output_format_string + i,
+        sequence_length);
+      dest_buffer_index += sequence_length;
     }
+    i += sequence_length;
   }
 }
 
-- 
2.43.0


From 19320767792a6b283a1f140ab833b0b5fb1df8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 15/35] fix: logging: nothing of an earlier output format is
 left after initializing again

---
 src/logging.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 1084592..c278393 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -523,6 +523,9 @@ static void create_format_string(
     }
     i += sequence_length;
   }
+
+  // an earlier initialization may have left a longer format string
+  g_rcutils_logging_output_format_string[dest_buffer_index] = '\0';
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From eb8c6bf900871163584ad9314f2b58df6c934154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 16/35] fix: date string: pad the milliseconds with zeros

---
 src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 882c9d9..47be937 100644
--- a/src/time.c
+++ b/src/time.c
@@ -66,7 +66,7 @@ rcutils_time_point_value_as_date_string(
   // Make sure the buffer is large enough to hold the largest possible uint64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%.9" PRIu64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 4a7653872e4d8ec0ff4f2cd48ac1cae26dfec230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 17/35] fix: directory size: do not crash on a directory with
 an empty listing

---
 src/filesystem.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 0f6bd4f..bc59bba 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -387,12 +387,14 @@ rcutils_calculate_directory_size_with_recursion(
       goto fail;
     }
 
-    do {
+    // The listing is empty, without even `.` and `..`, if the directory has just been removed
+    while (NULL != iter->entry_name) {
       ret = check_and_calculate_size(iter->entry_name, size, max_depth, dir_list, allocator);
       if (RCUTILS_RET_OK != ret) {
         goto fail;
       }
-    } while (rcutils_dir_iter_next(iter));
+      rcutils_dir_iter_next(iter);
+    }
 
     rcutils_dir_iter_end(iter);
 
-- 
2.43.0


From 9c0ea1314ebfe3d442c2d61079468fdb84f76dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 18/35] fix: directory size: report a failed listing instead of
 a partial total

---
 src/filesystem.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index bc59bba..6b2d154 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -335,6 +335,8 @@ static rcutils_ret_t check_and_calculate_size(
   return RCUTILS_RET_OK;
 }
 
+static rcutils_ret_t dir_iter_advance(rcutils_dir_iter_t * iter);
+
 rcutils_ret_t
 rcutils_calculate_directory_size_with_recursion(
   const char * directory_path,
@@ -393,7 +395,10 @@ rcutils_calculate_directory_size_with_recursion(
       if (RCUTILS_RET_OK != ret) {
         goto fail;
       }
-      rcutils_dir_iter_next(iter);
+      if (RCUTILS_RET_ERROR == dir_iter_advance(iter)) {
+        ret = RCUTILS_RET_ERROR;
+        goto fail;
+      }
     }
 
     rcutils_dir_iter_end(iter);
@@ -474,27 +479,42 @@ rcutils_dir_iter_start_fail:
   return NULL;
 }
 
-bool
-rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
+static rcutils_ret_t dir_iter_advance(rcutils_dir_iter_t * iter)
 {
-  RCUTILS_CHECK_ARGUMENT_FOR_NULL(iter, false);
-  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", false);
-
 #ifdef _WIN32
   if (FindNextFile(iter->state->handle, &iter->state->data)) {
     iter->entry_name = iter->state->data.cFileName;
-    return true;
+    return RCUTILS_RET_OK;
   }
+  DWORD error = GetLastError();
+  bool failed = ERROR_NO_MORE_FILES != error;
 #else
+  errno = 0;
   struct dirent * entry = readdir(iter->state->dir);
   if (NULL != entry) {
     iter->entry_name = entry->d_name;
-    return true;
+    return RCUTILS_RET_OK;
   }
+  int error = errno;
+  bool failed = 0 != error;
 #endif
 
   iter->entry_name = NULL;
-  return false;
+  if (failed) {
+    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
+      "Can't iterate directory. Error code: %d\n", (int)error);
+    return RCUTILS_RET_ERROR;
+  }
+  return RCUTILS_RET_NOT_FOUND;
+}
+
+bool
+rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
+{
+  RCUTILS_CHECK_ARGUMENT_FOR_NULL(iter, false);
+  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", return false);
+
+  return RCUTILS_RET_OK == dir_iter_advance(iter);
 }
 
 void
-- 
2.43.0


From 31402505b025f9563cb1ae8bbff632c20ca3a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 19/35] fix: directory size: report entries that cannot be
 examined, and do not follow symlinks

---
 src/filesystem.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 6b2d154..af66e7f 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -309,7 +309,28 @@ static rcutils_ret_t check_and_calculate_size(
     return RCUTILS_RET_BAD_ALLOC;
   }
 
-  if (rcutils_is_directory(file_path)) {
+#ifdef _WIN32
+  bool is_directory = rcutils_is_directory(file_path);
+  uint64_t file_size = is_directory ? 0 : rcutils_get_file_size(file_path);
+#else
+  // Symlinks are not followed
+  struct stat buf;
+  if (lstat(file_path, &buf) < 0) {
+    // An entry that has been removed in the meantime has no size
+    rcutils_ret_t ret = RCUTILS_RET_OK;
+    if (ENOENT != errno) {
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(
+        "Failed to get the status of %s !\n", file_path);
+      ret = RCUTILS_RET_ERROR;
+    }
+    allocator.deallocate(file_path, allocator.state);
+    return ret;
+  }
+  bool is_directory = S_ISDIR(buf.st_mode);
+  uint64_t file_size = S_ISREG(buf.st_mode) ? (uint64_t)buf.st_size : 0;
+#endif
+
+  if (is_directory) {
     if ((max_depth == 0) || ((dir_list->depth + 1) <= max_depth)) {
       // Add new directory to dir_list
       dir_list_t * found_new_dir =
@@ -327,7 +348,7 @@ static rcutils_ret_t check_and_calculate_size(
       return RCUTILS_RET_OK;
     }
   } else {
-    *dir_size += rcutils_get_file_size(file_path);
+    *dir_size += file_size;
   }
 
   allocator.deallocate(file_path, allocator.state);
-- 
2.43.0


From 710f4d34c7525f19e5363eec304c70ec5b6cbda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:29 +0000
Subject: [PATCH 20/35] fix: get_symbol: an error left pending in the loader
 does not fail a good lookup

---
 src/shared_library.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared_library.c b/src/shared_library.c
index 077478f..c8ae0c5 100644
--- a/src/shared_library.c
+++ b/src/shared_library.c
@@ -203,6 +203,7 @@ rcutils_get_symbol(const rcutils_shared_library_t * lib, const char * symbol_nam
   }
 
 #ifndef _WIN32
+  dlerror(); /* Clear any existing error */
   void * lib_symbol = dlsym(lib->lib_pointer, symbol_name);
   char * error = dlerror();
   if (error != NULL) {
-- 
2.43.0


From 57ef5973a9da7b1a9ece9d68c9a48335bf6914a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:12 +0000
Subject: [PATCH 21/35] fix: hash map: setting a value does not initialize
 logging unless there is something to log

---
 src/hash_map.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hash_map.c b/src/hash_map.c
index 28748d6..f13c7bc 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -437,8 +437,10 @@ rcutils_hash_map_set(rcutils_hash_map_t * hash_map, const void * key, const void
 
   // Time to check if we've exceeded our Load Factor and grow the map if so
   ret = hash_map_check_and_grow_map(hash_map);
-  // Just log on this failure because the map can continue to operate with degraded performance
-  RCUTILS_LOG_ERROR_EXPRESSION(RCUTILS_RET_OK != ret, "Failed to grow hash_map. Reason: %d", ret);
+  if (RCUTILS_RET_OK != ret) {
+    // Just log on this failure because the map can continue to operate with degraded performance
+    RCUTILS_LOG_ERROR("Failed to grow hash_map. Reason: %d", ret);
+  }
 
   return RCUTILS_RET_OK;
 }
-- 
2.43.0


From 91781b06e4270957296b3fbc8f3b6e3ee3397a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 22/35] fix: cli_get_option: an empty range has no options

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index 148c26f..d5abda6 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -37,7 +37,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
     }
   }
 
-  if (idx < end_idx - 1 && begin[idx++] != NULL) {
+  if (idx + 1 < end_idx && begin[idx++] != NULL) {
     return begin[idx];
   }
 
-- 
2.43.0


From 0077889e628ab504181bf9ba25d0c335964c7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 23/35] fix: cli_get_option: an argument that merely starts
 with the option is not the option

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index d5abda6..bb769c6 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -32,7 +32,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
   size_t idx = 0;
   size_t end_idx = (size_t)(end - begin);
   for (; idx < end_idx; ++idx) {
-    if (strncmp(begin[idx], option, strlen(option)) == 0) {
+    if (strcmp(begin[idx], option) == 0) {
       break;
     }
   }
-- 
2.43.0


From 43e04d75edd5faffcc5faac672a35892baa33525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 24/35] fix: array list: refuse a capacity whose size in bytes
 cannot be represented

---
 src/array_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 8761cec..eb05274 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 
 #include "rcutils/allocator.h"
@@ -66,6 +67,9 @@ rcutils_array_list_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / data_size) {
+    RCUTILS_SET_ERROR_MSG("requested capacity for array_list too large");
+    return RCUTILS_RET_BAD_ALLOC;
   }
 
   array_list->impl = allocator->allocate(sizeof(rcutils_array_list_impl_t), allocator->state);
-- 
2.43.0


From ed72658db3028bc2760ac0b898faacd8b4a39164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 25/35] fix: string array: refuse to resize to a size in bytes
 that cannot be represented

---
 src/string_array.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index e279a37..7b619ca 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -150,6 +151,12 @@ rcutils_string_array_resize(
     return RCUTILS_RET_OK;
   }
 
+  // ensure that reallocate won't overflow SIZE_MAX
+  if (new_size > SIZE_MAX / sizeof(char *)) {
+    RCUTILS_SET_ERROR_MSG("requested size for string array too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   rcutils_allocator_t * allocator = &string_array->allocator;
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
-- 
2.43.0


From df09df374294af85553415b7a85acc44127ca24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:29 +0000
Subject: [PATCH 26/35] fix: hash map: refuse a capacity whose size in bytes
 cannot be represented

---
 src/hash_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index f13c7bc..e148bd3 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -266,6 +267,10 @@ rcutils_hash_map_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / 2 / sizeof(rcutils_hash_map_impl_t)) {
+    // not even the capacity that is up to twice as large after rounding it up may overflow
+    RCUTILS_SET_ERROR_MSG("requested capacity for hash_map too large");
+    return RCUTILS_RET_BAD_ALLOC;
   }
 
   // Due to an optimization we use during lookup, the capacity must be a power-of-two.
-- 
2.43.0


From 93dbb98079f8533668811d3ebea42e61f989a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 27/35] fix: char array: report invalid arguments of init and
 fini as documented

---
 src/char_array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index 7277107..16125a9 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -31,10 +31,10 @@ rcutils_char_array_init(
   size_t buffer_capacity,
   const rcutils_allocator_t * allocator)
 {
-  RCUTILS_CHECK_ARGUMENT_FOR_NULL(char_array, RCUTILS_RET_ERROR);
+  RCUTILS_CHECK_ARGUMENT_FOR_NULL(char_array, RCUTILS_RET_INVALID_ARGUMENT);
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "char array has no valid allocator",
-    return RCUTILS_RET_ERROR);
+    return RCUTILS_RET_INVALID_ARGUMENT);
 
   char_array->owns_buffer = true;
   char_array->buffer_length = 0lu;
@@ -59,13 +59,13 @@ rcutils_char_array_init(
 rcutils_ret_t
 rcutils_char_array_fini(rcutils_char_array_t * char_array)
 {
-  RCUTILS_CHECK_ARGUMENT_FOR_NULL(char_array, RCUTILS_RET_ERROR);
+  RCUTILS_CHECK_ARGUMENT_FOR_NULL(char_array, RCUTILS_RET_INVALID_ARGUMENT);
 
   if (char_array->owns_buffer) {
     rcutils_allocator_t * allocator = &char_array->allocator;
     RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
       allocator, "char array has no valid allocator",
-      return RCUTILS_RET_ERROR);
+      return RCUTILS_RET_INVALID_ARGUMENT);
 
     allocator->deallocate(char_array->buffer, allocator->state);
   }
-- 
2.43.0


From 918ebdf92c0a1ef2a455801f18b3175565f4edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 28/35] fix: hash map: refuse to initialise a map that already
 is, as documented

---
 src/hash_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index e148bd3..2a051c8 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -258,6 +258,10 @@ rcutils_hash_map_init(
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(key_hashing_func, RCUTILS_RET_INVALID_ARGUMENT);
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(key_cmp_func, RCUTILS_RET_INVALID_ARGUMENT);
   RCUTILS_CHECK_ALLOCATOR(allocator, return RCUTILS_RET_INVALID_ARGUMENT);
+  if (NULL != hash_map->impl) {
+    RCUTILS_SET_ERROR_MSG("hash_map already initialized");
+    return RCUTILS_RET_STRING_MAP_ALREADY_INIT;
+  }
   if (1 > initial_capacity) {
     RCUTILS_SET_ERROR_MSG("initial_capacity cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
-- 
2.43.0


From 6de010750f63a778d893b5646704b7ca4874a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 29/35] fix: error handling: append the previous error only if
 there is one, as documented

---
 include/rcutils/error_handling.h | 48 +++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index ee5667a..1c54e27 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -321,10 +321,14 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR(msg) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
-    rcutils_reset_error(); \
-    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-      RCUTILS_EXPAND(msg ": %s"), error_string.str); \
+    if (rcutils_error_is_set()) { \
+      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_reset_error(); \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
+        RCUTILS_EXPAND(msg ": %s"), error_string.str); \
+    } else { \
+      RCUTILS_SET_ERROR_MSG(msg); \
+    } \
   } while (0)
 
 /// Set the error message with RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING and append the previous
@@ -341,10 +345,14 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
-    rcutils_reset_error(); \
-    RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-      RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, error_string.str); \
+    if (rcutils_error_is_set()) { \
+      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_reset_error(); \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
+        RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, error_string.str); \
+    } else { \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+    } \
   } while (0)
 
 /// Write the given msg out to stderr, limiting the buffer size in the `fwrite`, appending the
@@ -355,10 +363,14 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(msg) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
-    rcutils_reset_error(); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    if (rcutils_error_is_set()) { \
+      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_reset_error(); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    } else { \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
+    } \
   } while (0)
 
 /// Set the error message to stderr using a format string and format arguments, appending the
@@ -377,10 +389,14 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
-    rcutils_reset_error(); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    if (rcutils_error_is_set()) { \
+      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_reset_error(); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    } else { \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+    } \
   } while (0)
 
 #ifdef __cplusplus
-- 
2.43.0


From 7162de10a3660843f2859eebae0c1975f4645537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 30/35] fix: filesystem: report missing memory of a directory
 walk as documented

---
 src/filesystem.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index af66e7f..7163a7e 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -356,6 +356,8 @@ static rcutils_ret_t check_and_calculate_size(
   return RCUTILS_RET_OK;
 }
 
+static rcutils_dir_iter_t * dir_iter_start(
+  const char * directory_path, const rcutils_allocator_t allocator, rcutils_ret_t * reason);
 static rcutils_ret_t dir_iter_advance(rcutils_dir_iter_t * iter);
 
 rcutils_ret_t
@@ -404,9 +406,8 @@ rcutils_calculate_directory_size_with_recursion(
   *size = 0;
 
   do {
-    iter = rcutils_dir_iter_start(dir_list->path, allocator);
+    iter = dir_iter_start(dir_list->path, allocator, &ret);
     if (NULL == iter) {
-      ret = RCUTILS_RET_ERROR;
       goto fail;
     }
 
@@ -442,6 +443,15 @@ rcutils_dir_iter_start(const char * directory_path, const rcutils_allocator_t al
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     &allocator, "allocator is invalid", return NULL);
 
+  rcutils_ret_t reason;
+  return dir_iter_start(directory_path, allocator, &reason);
+}
+
+// If NULL is returned, the reason says why
+static rcutils_dir_iter_t * dir_iter_start(
+  const char * directory_path, const rcutils_allocator_t allocator, rcutils_ret_t * reason)
+{
+  *reason = RCUTILS_RET_BAD_ALLOC;
   rcutils_dir_iter_t * iter = allocator.zero_allocate(
     1, sizeof(rcutils_dir_iter_t), allocator.state);
   if (NULL == iter) {
@@ -457,9 +467,12 @@ rcutils_dir_iter_start(const char * directory_path, const rcutils_allocator_t al
     goto rcutils_dir_iter_start_fail;
   }
 
+  *reason = RCUTILS_RET_ERROR;
+
 #ifdef _WIN32
   char * search_path = rcutils_join_path(directory_path, "*", allocator);
   if (NULL == search_path) {
+    *reason = RCUTILS_RET_BAD_ALLOC;
     goto rcutils_dir_iter_start_fail;
   }
   iter->state->handle = FindFirstFile(search_path, &iter->state->data);
@@ -493,6 +506,7 @@ rcutils_dir_iter_start(const char * directory_path, const rcutils_allocator_t al
   }
 #endif
 
+  *reason = RCUTILS_RET_OK;
   return iter;
 
 rcutils_dir_iter_start_fail:
-- 
2.43.0


From 1f110b4a9dac519e5cdc7b5b635bf474fec050c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 31/35] fix: error handling macros: do not capture the caller's
 variables named ret, output_msg or error_string

---
 include/rcutils/error_handling.h | 36 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index 1c54e27..f60fe7e 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -65,12 +65,14 @@ extern "C"
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, ...) \
   do { \
-    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
-    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
-    if (ret < 0) { \
+    char __rcutils_error_output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
+    int __rcutils_error_written = rcutils_snprintf( \
+      __rcutils_error_output_msg, sizeof(__rcutils_error_output_msg), \
+      format_string, __VA_ARGS__); \
+    if (__rcutils_error_written < 0) { \
       RCUTILS_SAFE_FWRITE_TO_STDERR("Failed to call snprintf for error message formatting\n"); \
     } else { \
-      RCUTILS_SAFE_FWRITE_TO_STDERR(output_msg); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(__rcutils_error_output_msg); \
     } \
   } while (0)
 
@@ -247,12 +249,14 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
   do { \
-    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
-    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
-    if (ret < 0) { \
+    char __rcutils_error_output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
+    int __rcutils_error_written = rcutils_snprintf( \
+      __rcutils_error_output_msg, sizeof(__rcutils_error_output_msg), \
+      format_string, __VA_ARGS__); \
+    if (__rcutils_error_written < 0) { \
       RCUTILS_SAFE_FWRITE_TO_STDERR("Failed to call snprintf for error message formatting\n"); \
     } else { \
-      RCUTILS_SET_ERROR_MSG(output_msg); \
+      RCUTILS_SET_ERROR_MSG(__rcutils_error_output_msg); \
     } \
   } while (0)
 
@@ -322,10 +326,10 @@ rcutils_reset_error(void);
 #define RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR(msg) \
   do { \
     if (rcutils_error_is_set()) { \
-      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_error_string_t __rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
       RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-        RCUTILS_EXPAND(msg ": %s"), error_string.str); \
+        RCUTILS_EXPAND(msg ": %s"), __rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SET_ERROR_MSG(msg); \
     } \
@@ -346,10 +350,10 @@ rcutils_reset_error(void);
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
     if (rcutils_error_is_set()) { \
-      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_error_string_t __rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
       RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-        RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, error_string.str); \
+        RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, __rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
     } \
@@ -364,10 +368,10 @@ rcutils_reset_error(void);
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(msg) \
   do { \
     if (rcutils_error_is_set()) { \
-      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_error_string_t __rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
       RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
-      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", __rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
     } \
@@ -390,10 +394,10 @@ rcutils_reset_error(void);
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
     if (rcutils_error_is_set()) { \
-      rcutils_error_string_t error_string = rcutils_get_error_string(); \
+      rcutils_error_string_t __rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
       RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
-      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", __rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
     } \
-- 
2.43.0


From 263b8b99be83c1a88c2a4987da88268f7888da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 32/35] fix: error handling: appending the previous error takes
 the new message as text, not as a format

---
 include/rcutils/error_handling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index f60fe7e..099bdc4 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -329,7 +329,7 @@ rcutils_reset_error(void);
       rcutils_error_string_t __rcutils_prev_error_string = rcutils_get_error_string(); \
       rcutils_reset_error(); \
       RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-        RCUTILS_EXPAND(msg ": %s"), __rcutils_prev_error_string.str); \
+        "%s: %s", msg, __rcutils_prev_error_string.str); \
     } else { \
       RCUTILS_SET_ERROR_MSG(msg); \
     } \
-- 
2.43.0


From 2a535c0e05be6b6a9c88ba2c6f6e921677aafdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 33/35] fix: error handling: the error state is NULL when no
 error is set, as documented

---
 src/error_handling.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error_handling.c b/src/error_handling.c
index 061f474..1d61845 100644
--- a/src/error_handling.c
+++ b/src/error_handling.c
@@ -231,7 +231,7 @@ rcutils_error_is_set(void)
 const rcutils_error_state_t *
 rcutils_get_error_state(void)
 {
-  return &gtls_rcutils_error_state;
+  return gtls_rcutils_error_is_set ? &gtls_rcutils_error_state : NULL;
 }
 
 rcutils_error_string_t
-- 
2.43.0


From 958e48efc8d307b52ca2ed8f7603e62bc527c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 34/35] fix: error handling macros: a null check tests its
 whole argument

---
 include/rcutils/error_handling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index 099bdc4..f618438 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -219,7 +219,7 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
   do { \
-    if (NULL == value) { \
+    if (NULL == (value)) { \
       RCUTILS_SET_ERROR_MSG(msg); \
       error_statement; \
     } \
-- 
2.43.0


From c1a1462983d63d953280d20f3a38904b9d03219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 35/35] fix: filesystem: the size of a file is not taken from
 what replaced it

rcutils_get_file_size() looks at the path twice. When another process puts a
directory there between the two looks, the size of the directory was returned.
---
 src/filesystem.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 7163a7e..91083b1 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -589,5 +589,9 @@ rcutils_get_file_size(const char * file_path)
 
   struct stat stat_buffer;
   int rc = stat(file_path, &stat_buffer);
+  if (rc == 0 && (stat_buffer.st_mode & S_IFMT) != S_IFREG) {
+    // it was replaced by something else in the meantime
+    return 0;
+  }
   return rc == 0 ? (size_t)(stat_buffer.st_size) : 0;
 }
-- 
2.43.0

