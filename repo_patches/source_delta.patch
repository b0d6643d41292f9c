From 2b5b2314a613873f2582052983f9dd0ed089a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 01/38] fix: string_map getn and key_existsn must not look
 beyond the given key length

---
 src/string_map.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/string_map.c b/src/string_map.c
index 47688e0..8196d6f 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -255,11 +255,10 @@ __get_index_of_key_if_exists(
     if (NULL == string_map_impl->key_value_pairs[i].key) {
       continue;
     }
-    size_t cmp_count = strlen(string_map_impl->key_value_pairs[i].key);
-    if (key_length > cmp_count) {
-      cmp_count = key_length;
-    }
-    if (strncmp(key, string_map_impl->key_value_pairs[i].key, cmp_count) == 0) {
+    // only the first key_length characters of the given key belong to it
+    if (strlen(string_map_impl->key_value_pairs[i].key) <= key_length &&
+      strncmp(key, string_map_impl->key_value_pairs[i].key, key_length) == 0)
+    {
       *index = i;
       return true;
     }
-- 
2.43.0


From ad6d286690ba0b1546370c3f4e90e534140ed5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 02/38] fix: string_map reserve must not drop key value pairs
 when it shrinks

---
 src/string_map.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/string_map.c b/src/string_map.c
index 8196d6f..ec796c6 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -180,6 +180,17 @@ rcutils_string_map_reserve(rcutils_string_map_t * string_map, size_t capacity)
       return RCUTILS_RET_BAD_ALLOC;
     }
 
+    // when shrinking, move the existing pairs out of the space that is given up
+    size_t next_index = 0;
+    for (size_t i = 0; capacity < string_map->impl->capacity && i < string_map->impl->capacity; ++i) {
+      if (NULL != string_map->impl->key_value_pairs[i].key) {
+        key_value_pair_t pair = string_map->impl->key_value_pairs[i];
+        string_map->impl->key_value_pairs[i].key = NULL;
+        string_map->impl->key_value_pairs[i].value = NULL;
+        string_map->impl->key_value_pairs[next_index++] = pair;
+      }
+    }
+
     // resize the keys and values, assigning the result only if it succeeds
     key_value_pair_t * new_key_value_pairs = allocator.reallocate(
       string_map->impl->key_value_pairs, capacity * sizeof(key_value_pair_t), allocator.state);
-- 
2.43.0


From 48041e1a47e8caa77f7bd01b32c639726346e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 03/38] fix: char_array must not keep a freed buffer when
 resizing fails

---
 src/char_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/char_array.c b/src/char_array.c
index 76743d1..2093686 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -102,7 +102,9 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
   size_t old_length = char_array->buffer_length;
 
   if (char_array->owns_buffer) {  // we own the buffer, we can do whatever we want
-    char * new_buf = rcutils_reallocf(char_array->buffer, new_size * sizeof(char), allocator);
+    // the current buffer stays valid if this fails
+    char * new_buf = allocator->reallocate(
+      char_array->buffer, new_size * sizeof(char), allocator->state);
     RCUTILS_CHECK_FOR_NULL_WITH_MSG(
       new_buf,
       "failed to reallocate memory for char array",
-- 
2.43.0


From a165182193a333aa841ad3041f6a7e5ab61f27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 04/38] fix: char_array resize of an unowned buffer writes out
 of bounds or drops a byte

---
 src/char_array.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index 2093686..23a03e5 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -111,13 +111,18 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
       return RCUTILS_RET_BAD_ALLOC);
     char_array->buffer = new_buf;
   } else {  // we don't realloc memory we don't own. instead, we alloc some new space
-    rcutils_ret_t ret = rcutils_char_array_init(char_array, new_size, allocator);
-    if (ret != RCUTILS_RET_OK) {
-      return ret;
-    }
+    char * new_buf = allocator->allocate(new_size * sizeof(char), allocator->state);
+    RCUTILS_CHECK_FOR_NULL_WITH_MSG(
+      new_buf,
+      "failed to allocate memory for char array",
+      return RCUTILS_RET_BAD_ALLOC);
     size_t n = MIN(new_size, old_size);
-    memcpy(char_array->buffer, old_buf, n);
-    char_array->buffer[n - 1] = '\0';  // always have an ending
+    if (n > 0lu) {
+      memcpy(new_buf, old_buf, n);
+    }
+    new_buf[MIN(n, new_size - 1)] = '\0';  // always have an ending
+    char_array->buffer = new_buf;
+    char_array->owns_buffer = true;
   }
 
   char_array->buffer_capacity = new_size;
-- 
2.43.0


From b23bf1236f6721b84e0cbd319e2d286e3321837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 05/38] fix: char_array strncat must stop at the end of the
 source string

---
 src/char_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 23a03e5..b40edbb 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -227,6 +227,11 @@ rcutils_char_array_strncat(rcutils_char_array_t * char_array, const char * src,
     // The buffer length always contains the trailing \0, so the strlen is one less than that.
     current_strlen = char_array->buffer_length - 1;
   }
+  // at most n bytes, but nothing behind the end of src
+  const char * src_end = memchr(src, '\0', n);
+  if (NULL != src_end) {
+    n = (size_t)(src_end - src);
+  }
   size_t new_length = current_strlen + n + 1;
   rcutils_ret_t ret = rcutils_char_array_expand_as_needed(char_array, new_length);
   if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From b359bd2e91cee6e4aa03171510bc7424e71a2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 06/38] fix: string_array resize must refuse a size that
 overflows

---
 src/string_array.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index e279a37..bc8cfe7 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -154,6 +155,12 @@ rcutils_string_array_resize(
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
+  // ensure that reallocate won't overflow SIZE_MAX
+  if (new_size > (SIZE_MAX / sizeof(char *))) {
+    RCUTILS_SET_ERROR_MSG("requested size for string array too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Stash entries being removed
   rcutils_string_array_t to_reclaim = rcutils_get_zero_initialized_string_array();
   if (new_size < string_array->size) {
-- 
2.43.0


From d620e8125df50b921177f379c0c02c62eed91aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 07/38] fix: array_list init must refuse a capacity that
 overflows

---
 src/array_list.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 8761cec..26159f7 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 
 #include "rcutils/allocator.h"
@@ -68,6 +69,11 @@ rcutils_array_list_init(
     return RCUTILS_RET_INVALID_ARGUMENT;
   }
 
+  if (initial_capacity > (SIZE_MAX / data_size)) {
+    RCUTILS_SET_ERROR_MSG("requested capacity for array list too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   array_list->impl = allocator->allocate(sizeof(rcutils_array_list_impl_t), allocator->state);
   if (NULL == array_list->impl) {
     RCUTILS_SET_ERROR_MSG("failed to allocate memory for array list impl");
-- 
2.43.0


From 7f1dea8eab45f8ff22111e73f737db903ea442e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 08/38] fix: hash_map init must refuse a capacity that
 overflows

---
 src/hash_map.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 28748d6..6da9253 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -268,6 +269,12 @@ rcutils_hash_map_init(
     return RCUTILS_RET_INVALID_ARGUMENT;
   }
 
+  // Rounding up below can at most double the capacity, make sure its size does not overflow
+  if (initial_capacity > (SIZE_MAX / 2) / sizeof(rcutils_hash_map_impl_t)) {
+    RCUTILS_SET_ERROR_MSG("initial_capacity is too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Due to an optimization we use during lookup, the capacity must be a power-of-two.
   // If the user passed us something that is not power-of-two, round up to the next power-of-two
   if ((initial_capacity & (initial_capacity - 1)) != 0) {
-- 
2.43.0


From 084af09cf90a0e775960550cb526b8a749850dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 09/38] fix: hash_map init must refuse an already initialized
 map instead of leaking it

---
 src/hash_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 6da9253..4b00921 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -258,6 +258,10 @@ rcutils_hash_map_init(
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(key_hashing_func, RCUTILS_RET_INVALID_ARGUMENT);
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(key_cmp_func, RCUTILS_RET_INVALID_ARGUMENT);
   RCUTILS_CHECK_ALLOCATOR(allocator, return RCUTILS_RET_INVALID_ARGUMENT);
+  if (NULL != hash_map->impl) {
+    RCUTILS_SET_ERROR_MSG("hash_map already initialized");
+    return RCUTILS_RET_STRING_MAP_ALREADY_INIT;
+  }
   if (1 > initial_capacity) {
     RCUTILS_SET_ERROR_MSG("initial_capacity cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
-- 
2.43.0


From e56462ce8f76c97e15a17987927c7225159f9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 10/38] fix: split_last must terminate the first token of a
 string starting with two delimiters

---
 src/split.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split.c b/src/split.c
index 98c4783..449518a 100644
--- a/src/split.c
+++ b/src/split.c
@@ -180,7 +180,8 @@ rcutils_split_last(
      * found_last is the index of the the last position the delimiter was found
      * and not the actual position in terms of counting from 1
      */
-    size_t inner_rhs_offset = (str[found_last - 1] == delimiter) ? 1 : 0;
+    size_t inner_rhs_offset =
+      (found_last > lhs_offset && str[found_last - 1] == delimiter) ? 1 : 0;
     string_array->data[0] = allocator.allocate(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
-- 
2.43.0


From 41528d7dd5ad398c45b03502e0cca285d9aa44f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 11/38] fix: rcutils_get_error_state must return NULL when no
 error is set

---
 src/error_handling.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error_handling.c b/src/error_handling.c
index a060537..c0bbbcf 100644
--- a/src/error_handling.c
+++ b/src/error_handling.c
@@ -230,6 +230,9 @@ rcutils_error_is_set(void)
 const rcutils_error_state_t *
 rcutils_get_error_state(void)
 {
+  if (!gtls_rcutils_error_is_set) {
+    return NULL;
+  }
   return &gtls_rcutils_error_state;
 }
 
-- 
2.43.0


From 5236614547026e15eb525d92c1bc8b944c5e21f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 12/38] fix: APPEND_PREV_ERROR macros must not append a message
 when no error was set

---
 include/rcutils/error_handling.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index ee5667a..801f77b 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -321,6 +321,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR(msg) \
   do { \
+    if (!rcutils_error_is_set()) { \
+      RCUTILS_SET_ERROR_MSG(msg); \
+      break; \
+    } \
     rcutils_error_string_t error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
@@ -341,6 +345,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
+    if (!rcutils_error_is_set()) { \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+      break; \
+    } \
     rcutils_error_string_t error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
@@ -355,6 +363,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(msg) \
   do { \
+    if (!rcutils_error_is_set()) { \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
+      break; \
+    } \
     rcutils_error_string_t error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
@@ -377,6 +389,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
+    if (!rcutils_error_is_set()) { \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+      break; \
+    } \
     rcutils_error_string_t error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
-- 
2.43.0


From e2779bea66968486a21ac62dbc7c7f4c8aea8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 13/38] fix: unknown escape sequences in the console output
 format must be kept as they are

---
 src/logging.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 7aac274..4e13edf 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -473,10 +473,6 @@ static void create_format_string(
     back_slash_index = rcutils_findn(
       logging_output_format_string + i, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
     if (back_slash_index == SIZE_MAX) {
-      memcpy(
-        g_rcutils_logging_output_format_string + dest_buffer_index,
-        logging_output_format_string + start_offset - start_offset_previous_not_copy,
-        length - start_offset + start_offset_previous_not_copy);
       break;
     } else {
       const char * expected_char = NULL;
@@ -505,9 +501,9 @@ static void create_format_string(
       }
 
       if (expected_char) {
-        if (back_slash_index > 0) {
+        size_t len = back_slash_index + start_offset_previous_not_copy;
+        if (len > 0) {
           // copy previous buffer first
-          size_t len = back_slash_index + start_offset_previous_not_copy;
           memcpy(
             g_rcutils_logging_output_format_string + dest_buffer_index,
             logging_output_format_string + start_offset,
@@ -528,6 +524,14 @@ static void create_format_string(
       i += (back_slash_index + 2 + skip_chars);
     }
   }
+
+  // copy what remains after the last decoded character
+  if (start_offset < length) {
+    memcpy(
+      g_rcutils_logging_output_format_string + dest_buffer_index,
+      logging_output_format_string + start_offset,
+      length - start_offset);
+  }
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From 08c04c81ea114b0c687a35d4ef9d9500ae9fdd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 14/38] fix: logging re-initialization must not keep the tail
 of a longer output format

---
 src/logging.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 4e13edf..7815577 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -531,7 +531,10 @@ static void create_format_string(
       g_rcutils_logging_output_format_string + dest_buffer_index,
       logging_output_format_string + start_offset,
       length - start_offset);
+    dest_buffer_index += length - start_offset;
   }
+  // the buffer may still hold a longer format string from an earlier initialization
+  g_rcutils_logging_output_format_string[dest_buffer_index] = '\0';
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From 2f7419f5d5cc83ce02be4cc562d0c2bf7f3d098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 15/38] fix: logging must not leak the logger name when storing
 its level fails

---
 src/logging.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 7815577..319cfe6 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -924,6 +924,10 @@ static rcutils_ret_t add_key_to_hash_map(const char * name, int level, bool set_
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
       "Error setting severity level for logger named '%s': %s",
       name, rcutils_get_error_string().str);
+    if (!already_exists) {
+      g_rcutils_logging_allocator.deallocate(
+        (char *)copy_name, g_rcutils_logging_allocator.state);
+    }
     return RCUTILS_RET_ERROR;
   }
 
-- 
2.43.0


From c72913e2da5a54a1b283f96ca33b07c0ebe093be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 16/38] fix: failing to set a logger level must not unset the
 level set before

---
 src/logging.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 319cfe6..ccdecbc 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1133,11 +1133,9 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       char * previous_key = key;
       bool free_current_key = false;
       if (key != NULL && strncmp(name, key, name_length) == 0) {
-        // If this is the key we are replacing, unconditionally remove it from the hash map;
-        // we'll be adding it back as a user-set level anyway
-        if (key[name_length] == '\0') {
-          free_current_key = true;
-        } else {
+        // The key we are replacing stays in the hash map, where its level is overwritten below, so
+        // that the old level is not lost if that fails.
+        if (key[name_length] != '\0') {
           // Otherwise, this is a descendant; only remove it from the hash map
           // if we cached it (the user didn't explicitly set it).
           if (!(tmp_level & 0x1)) {
-- 
2.43.0


From 049fd9082e12da630f22e4b1bc2eae1bc434d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 17/38] fix: the level of the empty logger name must follow the
 default logger level

---
 src/logging.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index ccdecbc..e45d850 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1118,6 +1118,13 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
 
   size_t name_length = strlen(name);
 
+  if (name_length == 0) {
+    // The level of the logger with the empty name is the default logger level.  It is not stored in
+    // the map, where it would hide later changes of the default logger level.
+    g_rcutils_logging_default_logger_level = level;
+    return RCUTILS_RET_OK;
+  }
+
   if (rcutils_hash_map_key_exists(&g_rcutils_logging_severities_map, &name)) {
     // Iterate over the entire contents of the severities map, looking for entries that start with
     // this key name.  For any ones that match, check whether the user explicitly set them.  If the
@@ -1182,11 +1189,6 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       name, rcutils_get_error_string().str);
   }
 
-  if (name_length == 0) {
-    // If the name was empty, this also means we should update the default logger level
-    g_rcutils_logging_default_logger_level = level;
-  }
-
   return add_key_ret;
 }
 
-- 
2.43.0


From 43209e55d7f516f708523dd79087d569e93883e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 18/38] fix: get_logger_leveln must not read beyond the name
 length when out of memory

---
 src/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index e45d850..505b30b 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -15,6 +15,7 @@
 #include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
@@ -968,7 +969,8 @@ int rcutils_logging_get_logger_leveln(const char * name, size_t name_length)
   char * short_name = rcutils_strndup(name, name_length, g_rcutils_logging_allocator);
   if (short_name == NULL) {
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
-      "Failed to allocate memory when looking up logger level for '%s'", name);
+      "Failed to allocate memory when looking up logger level for '%.*s'",
+      name_length > INT_MAX ? INT_MAX : (int)name_length, name);
     return -1;
   }
 
-- 
2.43.0


From c6cfe36941ec7b2ebe0823f953dbb8991a34375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 19/38] fix: format_message must not fail when an empty output
 array and an empty expansion meet

---
 src/logging.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 505b30b..bf49043 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1263,6 +1263,14 @@ rcutils_ret_t rcutils_logging_format_message(
     .msg = msg
   };
 
+  if (NULL == logging_output->buffer) {
+    // The handlers report failure by returning NULL instead of the buffer, so there must be one.
+    rcutils_ret_t ret = rcutils_char_array_strcat(logging_output, "");
+    if (ret != RCUTILS_RET_OK) {
+      return RCUTILS_RET_ERROR;
+    }
+  }
+
   for (size_t i = 0; i < g_num_log_msg_handlers; ++i) {
     if (g_handlers[i].handler(
         &logging_input, logging_output,
-- 
2.43.0


From b9e37f7f66f348611df5a95fcaca907f4f68adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 20/38] fix: date string must pad the milliseconds with zeros

---
 src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 882c9d9..8dc5c93 100644
--- a/src/time.c
+++ b/src/time.c
@@ -66,7 +66,7 @@ rcutils_time_point_value_as_date_string(
   // Make sure the buffer is large enough to hold the largest possible uint64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%09" PRIu64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From d6e0e73b0a270588cacede63c8c75964dcded594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 21/38] fix: date string must be truncated to the size of the
 output string

---
 src/time.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/time.c b/src/time.c
index 8dc5c93..9248f90 100644
--- a/src/time.c
+++ b/src/time.c
@@ -85,15 +85,13 @@ rcutils_time_point_value_as_date_string(
   }
 #endif
 
-  if (str_size < 32 || strftime(str, 32, "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
+  // Format into a large enough buffer first, the result is truncated if str is too small for it
+  char date_str[32];
+  if (strftime(date_str, sizeof(date_str), "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as iso8601_date");
     return RCUTILS_RET_ERROR;
   }
-  static const int date_end_position = 19;
-  if (rcutils_snprintf(
-      &str[date_end_position], str_size - date_end_position, ".%.3s",
-      nanoseconds_str) < 0)
-  {
+  if (rcutils_snprintf(str, str_size, "%s.%.3s", date_str, nanoseconds_str) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as date_time_with_ms");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 02db0ce5193c687e95743a5b67afd0e88647377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 22/38] fix: date string of a time before the epoch must not be
 that of the mirrored time

---
 src/time.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/time.c b/src/time.c
index 9248f90..1484ee1 100644
--- a/src/time.c
+++ b/src/time.c
@@ -57,16 +57,18 @@ rcutils_time_point_value_as_date_string(
   if (0 == str_size) {
     return RCUTILS_RET_OK;
   }
-  // best to abs it to avoid issues with negative values in C89, see:
-  //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
   // break into two parts to avoid floating point error
-  uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
-  uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
-  // Make sure the buffer is large enough to hold the largest possible uint64_t
+  int64_t seconds = *time_point / (1000 * 1000 * 1000);
+  int64_t nanoseconds = *time_point % (1000 * 1000 * 1000);
+  if (nanoseconds < 0) {
+    // a time point before the epoch: count the nanoseconds from the second before it
+    nanoseconds += 1000 * 1000 * 1000;
+    seconds -= 1;
+  }
+  // Make sure the buffer is large enough to hold the largest possible int64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%09" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%09" PRId64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 1a3c6f5ee5844746871c928f89fc6361aa9a697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 23/38] fix: seconds string of the smallest time point must not
 overflow

---
 src/time.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 1484ee1..b01c8e4 100644
--- a/src/time.c
+++ b/src/time.c
@@ -114,7 +114,9 @@ rcutils_time_point_value_as_seconds_string(
   }
   // best to abs it to avoid issues with negative values in C89, see:
   //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
+  // (negating it as unsigned also works for the smallest value)
+  uint64_t abs_time_point =
+    (*time_point >= 0) ? (uint64_t)*time_point : 0u - (uint64_t)*time_point;
   // break into two parts to avoid floating point error
   uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
   uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
-- 
2.43.0


From fe0ae7324a570d01218fe5a7f0db3bff821c055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 24/38] fix: join_path must not truncate paths longer than 2047
 characters

---
 src/filesystem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 25c71d7..0f6bd4f 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -182,8 +182,9 @@ rcutils_join_path(
     return NULL;
   }
 
-  return rcutils_format_string(
+  return rcutils_format_string_limit(
     allocator,
+    strlen(left_hand_path) + strlen(RCUTILS_PATH_DELIMITER) + strlen(right_hand_path) + 1,
     "%s%s%s",
     left_hand_path, RCUTILS_PATH_DELIMITER, right_hand_path);
 }
-- 
2.43.0


From 6789c69e8a407505b168d91da4affcead14a9d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 25/38] fix: calculating the size of a directory must not
 follow symbolic links

---
 src/filesystem.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 0f6bd4f..7c9526f 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -309,6 +309,15 @@ static rcutils_ret_t check_and_calculate_size(
     return RCUTILS_RET_BAD_ALLOC;
   }
 
+#ifndef _WIN32
+  // Symbolic links are not followed, neither to files nor to directories
+  struct stat link_stat;
+  if (lstat(file_path, &link_stat) == 0 && S_ISLNK(link_stat.st_mode)) {
+    allocator.deallocate(file_path, allocator.state);
+    return RCUTILS_RET_OK;
+  }
+#endif  // _WIN32
+
   if (rcutils_is_directory(file_path)) {
     if ((max_depth == 0) || ((dir_list->depth + 1) <= max_depth)) {
       // Add new directory to dir_list
-- 
2.43.0


From 51e5eb6d1a16395eb4ac205669d3bcd79691a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 26/38] fix: directory size must not read the name of a missing
 first entry

---
 src/filesystem.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 7c9526f..8f555bb 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -396,12 +396,15 @@ rcutils_calculate_directory_size_with_recursion(
       goto fail;
     }
 
-    do {
+    // There is no entry at all in a directory which has been removed meanwhile
+    bool has_entry = NULL != iter->entry_name;
+    while (has_entry) {
       ret = check_and_calculate_size(iter->entry_name, size, max_depth, dir_list, allocator);
       if (RCUTILS_RET_OK != ret) {
         goto fail;
       }
-    } while (rcutils_dir_iter_next(iter));
+      has_entry = rcutils_dir_iter_next(iter);
+    }
 
     rcutils_dir_iter_end(iter);
 
-- 
2.43.0


From fd407adf831047e0104b1529e0757e3477990ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 27/38] fix: names containing '=' must not be taken for
 existing environment variables

---
 src/env.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/env.c b/src/env.c
index 3fdeab8..9e51859 100644
--- a/src/env.c
+++ b/src/env.c
@@ -20,6 +20,7 @@ extern "C"
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "rcutils/env.h"
 #include "rcutils/error_handling.h"
@@ -38,7 +39,8 @@ rcutils_set_env_overwrite(const char * env_name, const char * env_value, bool ov
   RCUTILS_CHECK_FOR_NULL_WITH_MSG(
     env_name, "env_name is null", return false);
 
-  if ((int)overwrite == 0 && getenv(env_name) != NULL) {
+  // getenv() may take an invalid name like "A=B" for the variable A if its value starts with "B="
+  if ((int)overwrite == 0 && strchr(env_name, '=') == NULL && getenv(env_name) != NULL) {
     return true;
   }
 
@@ -82,7 +84,8 @@ rcutils_get_env(const char * env_name, const char ** env_value)
   }
 
   // TODO(Suyash458): getenv is deprecated on Windows; consider using getenv_s instead
-  *env_value = getenv(env_name);
+  // No variable has a name like "A=B", but getenv() may find it if the value of A starts with "B="
+  *env_value = strchr(env_name, '=') == NULL ? getenv(env_name) : NULL;
 
   if (NULL == *env_value) {
     *env_value = "";
-- 
2.43.0


From 8f55223ab664c327ffbebf4a1c4c89993b7fceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 28/38] fix: cli_get_option must not take an argument for the
 option which only begins like it

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index 148c26f..fb15f35 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -32,7 +32,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
   size_t idx = 0;
   size_t end_idx = (size_t)(end - begin);
   for (; idx < end_idx; ++idx) {
-    if (strncmp(begin[idx], option, strlen(option)) == 0) {
+    if (strcmp(begin[idx], option) == 0) {
       break;
     }
   }
-- 
2.43.0


From ccc26808285e55f86ded7328385f4d1abb1bcc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 29/38] fix: cli_get_option must not look beyond the end of an
 empty range

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index fb15f35..bb769c6 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -37,7 +37,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
     }
   }
 
-  if (idx < end_idx - 1 && begin[idx++] != NULL) {
+  if (idx + 1 < end_idx && begin[idx++] != NULL) {
     return begin[idx];
   }
 
-- 
2.43.0


From 5cd13bf0fd4f8f942ccf662f15669893945f743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 30/38] fix: get_executable_name must not overflow when the
 program was invoked without a name

---
 src/process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.c b/src/process.c
index b93ed9f..ea1c4ee 100644
--- a/src/process.c
+++ b/src/process.c
@@ -79,7 +79,8 @@ char * rcutils_get_executable_name(rcutils_allocator_t allocator)
 
   // Since the above memory may be static, and the caller may want to modify
   // the argument, make and return a copy here.
-  char * executable_name = allocator.allocate(applen + 1, allocator.state);
+  // There is space for one character at least, as basename() of an empty name is ".".
+  char * executable_name = allocator.allocate(applen + 2, allocator.state);
   if (NULL == executable_name) {
     return NULL;
   }
-- 
2.43.0


From 1b165bfabf9c8d7d2ffc86cba4b6cbb7ff177f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 31/38] fix: dir_iter_next must return when the iterator has no
 state

---
 src/filesystem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 8f555bb..e7c4b56 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -488,7 +488,7 @@ bool
 rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
 {
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(iter, false);
-  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", false);
+  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", return false);
 
 #ifdef _WIN32
   if (FindNextFile(iter->state->handle, &iter->state->data)) {
-- 
2.43.0


From 3d460275277017dca01dfb7cefc125c7ab2451cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 32/38] fix: setting an error must initialize the thread's
 error storage

rcutils_initialize_error_handling_thread_local_storage() after an error was
set dropped the pending error, although setting an error initializes the
storage implicitly and a later call is documented to have no effect.
---
 src/error_handling.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/error_handling.c b/src/error_handling.c
index c0bbbcf..af7f2d3 100644
--- a/src/error_handling.c
+++ b/src/error_handling.c
@@ -213,6 +213,8 @@ rcutils_set_error_state(
     RCUTILS_SAFE_FWRITE_TO_STDERR(output_buffer);
   }
 #endif
+  // setting the error state implicitly initializes the thread-local storage
+  gtls_rcutils_thread_local_initialized = true;
   gtls_rcutils_error_state = error_state;
   gtls_rcutils_error_string_is_formatted = false;
   gtls_rcutils_error_string = (const rcutils_error_string_t) {
-- 
2.43.0


From ec89e00f4373595698924609b5b88bc4ad0cd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 33/38] fix: atomic_flag_test_and_set() of the bundled
 stdatomic.h must set the flag and return its old value

It passed a null pointer as the expected value of a compare and exchange, so every use of it crashed, and it would have
returned the opposite.
---
 include/rcutils/stdatomic_helper/gcc/stdatomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcutils/stdatomic_helper/gcc/stdatomic.h b/include/rcutils/stdatomic_helper/gcc/stdatomic.h
index e853dec..df83308 100644
--- a/include/rcutils/stdatomic_helper/gcc/stdatomic.h
+++ b/include/rcutils/stdatomic_helper/gcc/stdatomic.h
@@ -390,7 +390,7 @@ typedef atomic_bool     atomic_flag;
 #define atomic_flag_clear_explicit(object, order)     \
   atomic_store_explicit(object, 0, order)
 #define atomic_flag_test_and_set_explicit(object, order)    \
-  atomic_compare_exchange_strong_explicit(object, 0, 1, order, order)
+  atomic_exchange_explicit(object, 1, order)
 
 #define atomic_flag_clear(object)         \
   atomic_flag_clear_explicit(object, memory_order_seq_cst)
-- 
2.43.0


From 13b9a99139e22b27260b873b1c2a52b72577bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 34/38] fix: severity names are matched without regard to the
 locale

rcutils_logging_severity_level_from_string() is documented as not case
sensitive, but upper-cased the name with toupper(): in a Turkish locale
'i' does not become 'I', so "info" was refused.
---
 src/logging.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index bf49043..9646e08 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -12,7 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <limits.h>
@@ -838,7 +837,10 @@ rcutils_logging_severity_level_from_string(
     return RCUTILS_RET_BAD_ALLOC;
   }
   for (int i = 0; severity_string_upper[i]; ++i) {
-    severity_string_upper[i] = (char)toupper(severity_string_upper[i]);
+    // Not toupper(), which depends on the locale: in Turkish ones 'i' does not become 'I'.
+    if (severity_string_upper[i] >= 'a' && severity_string_upper[i] <= 'z') {
+      severity_string_upper[i] = (char)(severity_string_upper[i] - 'a' + 'A');
+    }
   }
 
   // Determine the severity value matching the severity name.
-- 
2.43.0


From 58ee1762263df68e2c420b92116539bbe8573700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 35/38] fix: array_list_add must set an error when it runs out
 of memory

Every other function of the list sets one, and rcutils_hash_map_set(), whose
callers report rcutils_get_error_string(), relies on this function for it.
---
 src/array_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array_list.c b/src/array_list.c
index 26159f7..7a7586e 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -116,6 +116,7 @@ static rcutils_ret_t rcutils_array_list_increase_capacity(rcutils_array_list_t *
     new_size,
     array_list->impl->allocator.state);
   if (NULL == new_list) {
+    RCUTILS_SET_ERROR_MSG("failed to allocate memory for array list data");
     return RCUTILS_RET_BAD_ALLOC;
   }
   array_list->impl->list = new_list;
-- 
2.43.0


From 1c1e68781907b0f266bc81741f869804643154a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 36/38] fix: hash_map_set must set an error when it runs out of
 memory

rcutils_logging_set_logger_level() reports rcutils_get_error_string() after
such a failure, which was 'error not set'.
---
 src/hash_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 4b00921..3f0e4d0 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -419,11 +419,13 @@ rcutils_hash_map_set(rcutils_hash_map_t * hash_map, const void * key, const void
     // Start by trying to allocate the memory we need for the new entry
     entry = allocator->allocate(sizeof(rcutils_hash_map_entry_t), allocator->state);
     if (NULL == entry) {
+      RCUTILS_SET_ERROR_MSG("failed to allocate memory for hash map entry");
       return RCUTILS_RET_BAD_ALLOC;
     }
     entry->key = allocator->allocate(hash_map->impl->key_size, allocator->state);
     entry->value = allocator->allocate(hash_map->impl->data_size, allocator->state);
     if (NULL == entry->key || NULL == entry->value) {
+      RCUTILS_SET_ERROR_MSG("failed to allocate memory for hash map entry");
       ret = RCUTILS_RET_BAD_ALLOC;
     }
 
-- 
2.43.0


From 700388c947060da49b3d956d0d21b231336b49c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 37/38] fix: split_last must set an error when it runs out of
 memory

rcutils_split() does, and it itself does for the array but not for a token.
---
 src/split.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/split.c b/src/split.c
index 449518a..9fb5e8e 100644
--- a/src/split.c
+++ b/src/split.c
@@ -164,6 +164,7 @@ rcutils_split_last(
     string_array->data[0] =
       allocator.allocate((found_last - lhs_offset + 2) * sizeof(char), allocator.state);
     if (NULL == string_array->data[0]) {
+      RCUTILS_SET_ERROR_MSG("failed to allocate memory for token");
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
@@ -186,6 +187,7 @@ rcutils_split_last(
       (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
       allocator.state);
     if (NULL == string_array->data[0]) {
+      RCUTILS_SET_ERROR_MSG("failed to allocate memory for token");
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
@@ -197,6 +199,7 @@ rcutils_split_last(
       (string_size - found_last - rhs_offset + 1) * sizeof(char),
       allocator.state);
     if (NULL == string_array->data[1]) {
+      RCUTILS_SET_ERROR_MSG("failed to allocate memory for token");
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-- 
2.43.0


From 2e404ec220592b0abe94ff5756c246aa574df168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 38/38] fix: RCUTILS_CHECK_FOR_NULL_WITH_MSG checks the whole
 expression it is given

---
 include/rcutils/error_handling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index 801f77b..4d9d465 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -217,7 +217,7 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
   do { \
-    if (NULL == value) { \
+    if (NULL == (value)) { \
       RCUTILS_SET_ERROR_MSG(msg); \
       error_statement; \
     } \
-- 
2.43.0

