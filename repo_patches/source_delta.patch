From 69f6827c8a5e868634a97728f3b21baa42f7f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 01/19] fix: Caesar decryption of letters that wrap below 'A'

The difference went negative and was reduced modulo 26 as an unsigned
32-bit number, which is no multiple of 26: most texts did not survive a
round trip.
---
 Src/crypto/caesar_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/crypto/caesar_cipher.c b/Src/crypto/caesar_cipher.c
index baff723..2b6871e 100644
--- a/Src/crypto/caesar_cipher.c
+++ b/Src/crypto/caesar_cipher.c
@@ -66,7 +66,7 @@ CaesarCipher_decrypt(char* msg, uint8_t shift) {
             if (Utils_isUpperChar(msg[i])) {
                 ascii_val = UPPER_A_ASCII;
             }
-            uint8_t decrypted_char = (((uint8_t)msg[i] - shift - ascii_val) % MAX_SHIFT) + ascii_val;
+            uint8_t decrypted_char = (((uint8_t)msg[i] - ascii_val + MAX_SHIFT - (shift % MAX_SHIFT)) % MAX_SHIFT) + ascii_val;
             msg[i] = (char)decrypted_char;
         }
     }
-- 
2.43.0


From 7e5d2416be7992c864010858d0bd33ecfd72b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 02/19] fix: Vernam cipher with key bytes that are not letters

Encryption left negative remainders (producing bytes that are no letters)
and decryption did not reduce modulo 26, so such keys did not round-trip.
---
 Src/crypto/vernam_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 71edb76..9f495c3 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -60,7 +60,7 @@ VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
                 }
 
                 int32_t temp = (((int8_t)msg[i] - ascii_val + (int8_t)key[i] - c) % NUM_OF_ALPHA);
-                int32_t cipher = temp + ascii_val;
+                int32_t cipher = (temp < 0) ? (temp + NUM_OF_ALPHA + ascii_val) : (temp + ascii_val);
                 msg[i] = (char)cipher;
             }
         }
@@ -86,7 +86,7 @@ VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t cipher = ((msg[i] - ascii_val) - (key[i] - c));
+                int32_t cipher = (((int8_t)msg[i] - ascii_val) - ((int8_t)key[i] - c)) % NUM_OF_ALPHA;
                 cipher = (cipher < 0) ? (cipher + NUM_OF_ALPHA + ascii_val) : (cipher + ascii_val);
                 msg[i] = (char)cipher;
             }
-- 
2.43.0


From 9d97107064c2ce7e91aa843b885ec7e0424ab3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 03/19] fix: Base64_encode writes its terminator past the
 result buffer

The terminating NUL was not counted: with a capacity of exactly the text
(or zero) it was written one byte past the end.
---
 Src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index 53ef892..4fe896f 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -45,7 +45,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
     size_t len = 4U * ((data_length + 2U) / 3U);
 
-    if (len < data_length) {
+    if ((len < data_length) || (len >= max_result_length)) {
         success = 1;
     }
 
-- 
2.43.0


From 052e7fe2273d47be0d580c630b2ba733d992de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 04/19] fix: Base64_decode rejects texts of a single incomplete
 group

One- and two-byte strings ("QQ==", "QUI=", "QQ") have no complete group
and were rejected as if the text were empty.
---
 Src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index 4fe896f..1dd5cf0 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -137,7 +137,7 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
         success = 1;
     }
 
-    if (len == 0U) {
+    if (in_len < 2U) {
         success = 1;
     }
 
-- 
2.43.0


From 839fa8219ca86de7f83ccd61387436612a36c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 05/19] fix: Base64_decode reads past a text with one trailing
 character

With a length of 4k+1 the second character of the last group was read
from beyond the given text.
---
 Src/base64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index 1dd5cf0..367d5a3 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -154,7 +154,10 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
             ++j;
         }
         if (pad_bool) {
-            uint32_t n = (base64_index[in_data_uchar[len]] << 18U) | (base64_index[in_data_uchar[len + 1U]] << 12U);
+            uint32_t n = base64_index[in_data_uchar[len]] << 18U;
+            if (in_len > (len + 1U)) {
+                n |= base64_index[in_data_uchar[len + 1U]] << 12U;
+            }
             out[out_len - 1U] = (uint8_t)(n >> 16U);
 
             if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {
-- 
2.43.0


From 87f2840683d1497816e74109e1b6e375fcfa228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 06/19] fix: Json_addData leaves a stray comma when the member
 does not fit

The separator was written before the size check: a refused member left a
trailing comma (and its NUL one byte past a full buffer), and an empty
text made it read before the buffer.
---
 Src/json.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 24c84b2..020a51f 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -58,13 +58,17 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
 
-    if (0 == strcmp(&buffer[index - 1U], "\"")) {
-        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
-        strcpy(&buffer[index], ",");
-        ++index;
+    const bool separator = (index > 0U) && (buffer[index - 1U] == '"');
+    if (separator) {
+        ++total_size;
     }
 
     if ((total_size + index) <= buffer_size) {
+        if (separator) {
+            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+            strcpy(&buffer[index], ",");
+            ++index;
+        }
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], "\"");
         index += strlen("\"");
-- 
2.43.0


From b28c80a102b40091700555f246938eddcceefbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 07/19] fix: Json_findByKey confused by keys inside other keys
 and values

Only the first place where the key's characters occurred was looked at,
wherever it was: a value or a longer key containing them hid the member,
or delivered another member's text. Keys are now compared as whole quoted
strings that are followed by a colon.
---
 Src/json.c | 73 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 020a51f..bd99b67 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -106,56 +106,63 @@ Json_endString(char* buffer, size_t buffer_size) {
     return success;
 }
 
+static size_t
+FindQuote(const char* text, size_t text_size, size_t start) {
+    size_t index = start;
+    while ((index < text_size) && (text[index] != '"')) {
+        ++index;
+    }
+    return index;
+}
+
+static size_t
+SkipSpaces(const char* text, size_t text_size, size_t start) {
+    size_t index = start;
+    while ((index < text_size) && ((text[index] == ' ') || (text[index] == '\t') ||
+                                   (text[index] == '\r') || (text[index] == '\n'))) {
+        ++index;
+    }
+    return index;
+}
+
 bool
 Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* value, size_t max_value_size) {
     bool success = false;
+    bool key_found = false;
 
     size_t key_size = strlen(key);
-    uint32_t max_search_size = 0U;
-    uint32_t index;
+    size_t text_size = 0U;
+    size_t index = 0U;
 
-    if (buffer_size > key_size) {
-        max_search_size = (uint32_t)(buffer_size - key_size);
+    while ((text_size < buffer_size) && (buffer[text_size] != '\0')) {
+        ++text_size;
     }
 
-    for (index = 0U; index < max_search_size; ++index) {
-
-        /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
-        by calculating max_search_size from buffer size and key size */
-        if (0 == strncmp(&buffer[index], key, key_size)) {
-
-            if (buffer[index + key_size] == '"') {
-                success = true;
-            }
+    /* Go from quoted string to quoted string: one that is followed by a colon is a key. */
+    while ((!key_found) && (index < text_size)) {
+        size_t start = FindQuote(buffer, text_size, index) + 1U;
+        size_t end = FindQuote(buffer, text_size, start);
 
-            break;
+        index = SkipSpaces(buffer, text_size, end + 1U);
+        if ((index < text_size) && (buffer[index] == ':') && ((end - start) == key_size)) {
+            key_found = (0 == memcmp(&buffer[start], key, key_size));
         }
     }
 
-    if (success) {
-
-        success = false;
-        for (index += (uint32_t)(key_size + 1U); index < buffer_size; ++index) {
-
-            if (buffer[index] == '"') {
-                break;
-            }
-        }
-
-        size_t value_size = 0;
-        ++index;
+    if (key_found) {
+        index = SkipSpaces(buffer, text_size, index + 1U);
 
-        while ((index < buffer_size) && (value_size < max_value_size)) {
-            value[value_size] = buffer[index];
+        if ((index < text_size) && (buffer[index] == '"')) {
+            size_t start = index + 1U;
+            size_t end = FindQuote(buffer, text_size, start);
+            size_t value_size = end - start;
 
-            if (buffer[index] == '"') {
+            if ((end < text_size) && (value_size < max_value_size)) {
+                // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+                memcpy(value, &buffer[start], value_size);
                 value[value_size] = '\0';
                 success = true;
-                break;
             }
-
-            ++value_size;
-            ++index;
         }
     }
 
-- 
2.43.0


From 6f5840b4f4f734cef910815def0cb0945d3019f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 08/19] fix: HeapSort_sort compares elements beyond the array

Both children were handed to the comparison function before checking that
they exist.
---
 Src/sort/heap_sort.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cf99e9a..7568c74 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,14 +48,19 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = compareFun(&elements[left * element_size],
-                                            &elements[largest * element_size]);
+        bool compare_ret_value = false;
+        if (left < n) {
+            compare_ret_value = compareFun(&elements[left * element_size],
+                                           &elements[largest * element_size]);
+        }
 
         if ((left < n) && (compare_ret_value)) {
             largest = left;
         }
 
-        compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
+        if (right < n) {
+            compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
+        }
 
         if ((right < n) && (compare_ret_value)) {
             largest = right;
-- 
2.43.0


From 7aff49cc8328b0794d5f37427d7345e90b92c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 09/19] fix: InsertionSort_sort compares the element before the
 array

After moving past the first element the comparison function was still
called, with a pointer before the array.
---
 Src/sort/insertion_sort.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 8bd4dcc..10594c6 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -59,7 +59,9 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
             memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
             --j;
-            compare = compareFun(&elements[j * element_size], element);
+            if (j >= 0) {
+                compare = compareFun(&elements[j * element_size], element);
+            }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
-- 
2.43.0


From a45fe427eb7b890fbf176a0d9a96098b1150d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 10/19] fix: BitManipulation_rotl32 by 0 and 32

Both shift by 32, which is undefined, and give 0 in optimised builds.
---
 Src/bit_manipulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/bit_manipulation.c b/Src/bit_manipulation.c
index 34e3ff1..19f70e4 100644
--- a/Src/bit_manipulation.c
+++ b/Src/bit_manipulation.c
@@ -107,6 +107,6 @@ BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
 uint32_t
 BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
 
-    /* -E> hide MC3R1.R12.2 1 To optimize efficiency, we do not verify whether n_bits is between 0 and 31. */
-    return ((data << n_bits) ^ (data >> (32U - n_bits)));
+    /* -E> compliant MC3R1.R12.2 1 The shift counts are between 0 and 31 due to bit masking. */
+    return ((data << (n_bits & MAX_BIT_SHIFT)) | (data >> ((32U - n_bits) & MAX_BIT_SHIFT)));
 }
-- 
2.43.0


From 1e1011e13d3942b4e6f66f16b28d663954a7e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 11/19] fix: Map_init accepts negative sizes

A negative key size, value size or capacity was taken as valid; later
operations then work before the given storage.
---
 Src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/map.c b/Src/map.c
index ce59322..5f153e9 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -55,7 +55,7 @@ bool
 Map_init(Map_t* map, byte_t* keys, byte_t* values, int32_t key_size, int32_t value_size,
          int32_t max_map_size) {
     bool status = false;
-    if ((key_size != 0) && (value_size != 0) && (max_map_size != 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
+    if ((key_size > 0) && (value_size > 0) && (max_map_size > 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
         map->keys = keys;
         map->values = values;
         map->key_size = key_size;
-- 
2.43.0


From 2b517fad023afa3b444ba3c3d688ece42562cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 12/19] fix: little-endian blocks of 2^31 bytes and more are
 not converted

The size was turned into a signed index, negative from 2^31 on, so nothing was
written.
---
 Src/utils.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Src/utils.c b/Src/utils.c
index 6f32933..f1ebfd9 100644
--- a/Src/utils.c
+++ b/Src/utils.c
@@ -217,9 +217,9 @@ Utils_serialize32LE(byte_t* buf, uint32_t value) {
 
 void
 Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
-    int32_t j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        buf[j] = src[i];
+    uint32_t j = 0U;
+    for (uint32_t i = size; i > 0U; --i) {
+        buf[j] = src[i - 1U];
         ++j;
     }
 }
@@ -253,9 +253,9 @@ Utils_deserialize32LE(const byte_t* buf) {
 
 void
 Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
-    int32_t  j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        dst[j] = buf[i];
+    uint32_t j = 0U;
+    for (uint32_t i = size; i > 0U; --i) {
+        dst[j] = buf[i - 1U];
         ++j;
     }
 }
-- 
2.43.0


From 851be86828a8a21c5ee23b9f8b45fa862dd21f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 13/19] fix: Vernam cipher accepts texts of another length
 modulo 2^32

The length of the text was truncated to 32 bits before it was compared with the
length of the key.
---
 Src/crypto/vernam_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 9f495c3..d9c8b27 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -46,7 +46,7 @@ bool
 VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int8_t c = UPPER_A_ASCII;
@@ -73,7 +73,7 @@ bool
 VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int8_t c = UPPER_A_ASCII;
-- 
2.43.0


From c2cf22a0b23337c6c12f2a3f890ec5ff0fc60e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:58 +0000
Subject: [PATCH 14/19] fix: insertion sort gives wrong results when its
 comparison function sorts

---
 Src/sort/insertion_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 10594c6..783e178 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -40,7 +40,7 @@ void
 InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
-    static byte_t max_element[MAX_ELEMENT_SIZE];
+    byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
 
     for (int32_t i = 1; i < number_of_elements; ++i) {
-- 
2.43.0


From 82d62929e281f66957c78e6302aea89d03f2ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:17 +0000
Subject: [PATCH 15/19] fix: heap sort reads outside arrays of more than 2^30
 elements

---
 Src/sort/heap_sort.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index 7568c74..1cf216d 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -45,25 +45,21 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
 
     while (continue_iterating) {
         int32_t largest = index;
-        int32_t left = (2 * index) + 1;
-        int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = false;
-        if (left < n) {
-            compare_ret_value = compareFun(&elements[left * element_size],
-                                           &elements[largest * element_size]);
-        }
-
-        if ((left < n) && (compare_ret_value)) {
-            largest = left;
-        }
+        /* Only elements of the first half have children. */
+        if (index < (n / 2)) {
+            int32_t left = (2 * index) + 1;
+            int32_t right = left + 1;
 
-        if (right < n) {
-            compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
-        }
+            if (compareFun(&elements[left * element_size], &elements[largest * element_size])) {
+                largest = left;
+            }
 
-        if ((right < n) && (compare_ret_value)) {
-            largest = right;
+            if (right < n) {
+                if (compareFun(&elements[right * element_size], &elements[largest * element_size])) {
+                    largest = right;
+                }
+            }
         }
 
         if (largest != index) {
-- 
2.43.0


From 0af8207679a1ad554bb33eacedfe418a21d983b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:11 +0000
Subject: [PATCH 16/19] fix: queue mixes up elements in storage of more than
 2^32 bytes

---
 Src/queue.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/queue.c b/Src/queue.c
index 8f4d7f5..191db5e 100644
--- a/Src/queue.c
+++ b/Src/queue.c
@@ -71,7 +71,7 @@ Queue_enqueue(Queue_t* queue, const uint8_t* element) {
              * in buffer, and their size is stored in element_size member. Also, there is a guard that checks that
              * queue is not full. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[((queue->rear + 1U) % queue->capacity) * queue->element_size], element, queue->element_size);
+            memcpy(&buffer[(size_t)((queue->rear + 1U) % queue->capacity) * queue->element_size], element, queue->element_size);
             queue->rear = (queue->rear + 1U) % queue->capacity;
             queue->size = queue->size + 1U;
             status = true;
@@ -89,7 +89,7 @@ Queue_dequeue(Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->front * queue->element_size], queue->element_size);
             queue->front = (queue->front + 1U) % queue->capacity;
             queue->size = queue->size - 1U;
             status = true;
@@ -107,7 +107,7 @@ Queue_front(const Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->front * queue->element_size], queue->element_size);
             status = true;
         }
     }
@@ -123,7 +123,7 @@ Queue_rear(const Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->rear * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->rear * queue->element_size], queue->element_size);
             status = true;
         }
     }
-- 
2.43.0


From d120d77af254138e35d2d7735934d937b16a9cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:11 +0000
Subject: [PATCH 17/19] fix: priority queue mixes up elements in storage of
 more than 2^32 bytes

---
 Src/priority_queue.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/priority_queue.c b/Src/priority_queue.c
index 0b5ddd5..3ebba87 100644
--- a/Src/priority_queue.c
+++ b/Src/priority_queue.c
@@ -99,7 +99,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
         /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, there is a guard that checks that priority
          * queue is not full. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(&buffer[queue->size * queue->element_size], item->element, queue->element_size);
+        memcpy(&buffer[(size_t)queue->size * queue->element_size], item->element, queue->element_size);
         queue->priority_array[queue->size] = *(item->priority);
         queue->size = queue->size + 1U;
         status = true;
@@ -115,7 +115,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
                  * queue size is reached which is previous size - 1. Therefore, last valid element that will be used in
                  * memcpy function is placed in current size + 1. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&buffer[i * queue->element_size], &buffer[(i * queue->element_size) + queue->element_size],
+                memcpy(&buffer[(size_t)i * queue->element_size], &buffer[((size_t)i * queue->element_size) + queue->element_size],
                        queue->element_size);
                 queue->priority_array[i] = queue->priority_array[i + 1U];
             }
@@ -123,7 +123,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
              * insert a new element because of removing element with the lowest priority (performed in the above code,
              * in the same function). */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[queue->size * queue->element_size], item->element, queue->element_size);
+            memcpy(&buffer[(size_t)queue->size * queue->element_size], item->element, queue->element_size);
             queue->priority_array[queue->size] = *(item->priority);
             queue->size = queue->size + 1U;
         }
@@ -141,7 +141,7 @@ PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
         /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
          * in buffer, and their size is stored in element_size member. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(element, &buffer[highest_priority_index * queue->element_size], queue->element_size);
+        memcpy(element, &buffer[(size_t)highest_priority_index * queue->element_size], queue->element_size);
         queue->size = queue->size - 1U;
         const uint32_t current_size = queue->size;
         for (uint32_t i = highest_priority_index; i < current_size; ++i) {
@@ -149,7 +149,7 @@ PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
              * queue size is reached which is previous size - 1. Therefore, last valid element that will be used in
              * memcpy function is placed in current size + 1. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[i * queue->element_size], &buffer[(i * queue->element_size) + queue->element_size],
+            memcpy(&buffer[(size_t)i * queue->element_size], &buffer[((size_t)i * queue->element_size) + queue->element_size],
                    queue->element_size);
             queue->priority_array[i] = queue->priority_array[i + 1U];
         }
-- 
2.43.0


From 7fa28557b16105fb7526e475be4fbe13fcd649a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:11 +0000
Subject: [PATCH 18/19] fix: map reaches outside storage of more than 2^31
 bytes

---
 Src/map.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/map.c b/Src/map.c
index 5f153e9..830fd6b 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -43,7 +43,7 @@ GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
     int32_t index = INDEX_NOT_FOUND;
     for (int32_t i = 0; i < size; ++i) {
         /* -E> compliant MC3R1.R21.18 1 map->key_size is a size of the key in the map and it has appropriate value. */
-        if (memcmp(&map->keys[i * map->key_size], key, (size_t)map->key_size) == 0) {
+        if (memcmp(&map->keys[(size_t)i * (size_t)map->key_size], key, (size_t)map->key_size) == 0) {
             index = i;
             break;
         }
@@ -78,12 +78,12 @@ Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
                 /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because there is a check if current map size reached
                  * max map size. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&map->keys[map->current_size * map->key_size], key, (size_t)map->key_size);
+                memcpy(&map->keys[(size_t)map->current_size * (size_t)map->key_size], key, (size_t)map->key_size);
                 /* -E> compliant MC3R1.R21.18 4 map->value_size is a size of the value in the map and it has appropriate value. */
                 /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because there is a check if current map size reached
                  * max map size. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&map->values[map->current_size * map->value_size], value, (size_t)map->value_size);
+                memcpy(&map->values[(size_t)map->current_size * (size_t)map->value_size], value, (size_t)map->value_size);
                 ++map->current_size;
                 status = true;
             }
@@ -92,7 +92,7 @@ Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen since the current key is the same as the key that is
              * previously inserted in the map. Therefore, new value will be mapped to that key. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&map->values[index * map->value_size], value, (size_t)map->value_size);
+            memcpy(&map->values[(size_t)index * (size_t)map->value_size], value, (size_t)map->value_size);
             status = true;
         }
     }
@@ -109,7 +109,7 @@ Map_getValue(const Map_t* map, const byte_t* key, byte_t* value) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because the map->value_size is the size of the value
              * and every element in map->values has that size */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(value, &map->values[index * map->value_size], (size_t)map->value_size);
+            memcpy(value, &map->values[(size_t)index * (size_t)map->value_size], (size_t)map->value_size);
             status = true;
         }
     }
-- 
2.43.0


From 310a7e27e64b6bb03caf27c23b053e3f8ede9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:11 +0000
Subject: [PATCH 19/19] fix: sorts reach outside arrays of more than 2^31 bytes

---
 Src/sort/bubble_sort.c    |  6 ++++--
 Src/sort/heap_sort.c      | 10 ++++++----
 Src/sort/insertion_sort.c | 10 +++++-----
 Src/sort/selection_sort.c |  6 ++++--
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/Src/sort/bubble_sort.c b/Src/sort/bubble_sort.c
index 0012402..4fa23ee 100644
--- a/Src/sort/bubble_sort.c
+++ b/Src/sort/bubble_sort.c
@@ -34,6 +34,8 @@
 
 #include "bubble_sort.h"
 
+#include <stddef.h>
+
 #include "utils.h"
 
 void
@@ -45,8 +47,8 @@ BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size
     while (swapped) {
         swapped = false;
         for (int32_t j = 0; j < (number_of_elements - i - 1); ++j) {
-            if (compareFun(&elements[j * element_size], &elements[(j + 1) * element_size])) {
-                Utils_swapElements(&elements[j * element_size], &elements[(j + 1) * element_size], (uint32_t)element_size);
+            if (compareFun(&elements[(size_t)j * (size_t)element_size], &elements[(size_t)(j + 1) * (size_t)element_size])) {
+                Utils_swapElements(&elements[(size_t)j * (size_t)element_size], &elements[(size_t)(j + 1) * (size_t)element_size], (uint32_t)element_size);
                 swapped = true;
             }
         }
diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index 1cf216d..25f8b11 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -34,6 +34,8 @@
 
 #include "heap_sort.h"
 
+#include <stddef.h>
+
 #include "utils.h"
 
 static void
@@ -51,19 +53,19 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
             int32_t left = (2 * index) + 1;
             int32_t right = left + 1;
 
-            if (compareFun(&elements[left * element_size], &elements[largest * element_size])) {
+            if (compareFun(&elements[(size_t)left * (size_t)element_size], &elements[(size_t)largest * (size_t)element_size])) {
                 largest = left;
             }
 
             if (right < n) {
-                if (compareFun(&elements[right * element_size], &elements[largest * element_size])) {
+                if (compareFun(&elements[(size_t)right * (size_t)element_size], &elements[(size_t)largest * (size_t)element_size])) {
                     largest = right;
                 }
             }
         }
 
         if (largest != index) {
-            Utils_swapElements(&elements[index * element_size], &elements[largest * element_size], (uint32_t)element_size);
+            Utils_swapElements(&elements[(size_t)index * (size_t)element_size], &elements[(size_t)largest * (size_t)element_size], (uint32_t)element_size);
             index = largest;
         } else {
             continue_iterating = false;
@@ -81,7 +83,7 @@ HeapSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
     }
 
     for (i = number_of_elements - 1; i >= 0; --i) {
-        Utils_swapElements(&elements[0], &elements[i * element_size], (uint32_t)element_size);
+        Utils_swapElements(&elements[0], &elements[(size_t)i * (size_t)element_size], (uint32_t)element_size);
         Heapify(elements, i, 0, element_size, compareFun);
     }
 }
diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 783e178..a06bbd2 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -48,25 +48,25 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
          * have same size, and their size is stored in element_size variable. Precondition is that
          * element_size must be less than or equal to MAX_ELEMENT_SIZE. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(element, &elements[i * element_size], (size_t)element_size);
+        memcpy(element, &elements[(size_t)i * (size_t)element_size], (size_t)element_size);
 
         int32_t j = i - 1;
-        bool compare = compareFun(&elements[j * element_size], element);
+        bool compare = compareFun(&elements[(size_t)j * (size_t)element_size], element);
 
         while ((j >= 0) && compare) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen, all elements in buffer
              * have same size, and their size is stored in element_size variable. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
+            memcpy(&elements[(size_t)(j + 1) * (size_t)element_size], &elements[(size_t)j * (size_t)element_size], (size_t)element_size);
             --j;
             if (j >= 0) {
-                compare = compareFun(&elements[j * element_size], element);
+                compare = compareFun(&elements[(size_t)j * (size_t)element_size], element);
             }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
          * element_size must be less than or equal to MAX_ELEMENT_SIZE. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(&elements[(j + 1) * element_size], element, (size_t)element_size);
+        memcpy(&elements[(size_t)(j + 1) * (size_t)element_size], element, (size_t)element_size);
     }
 }
diff --git a/Src/sort/selection_sort.c b/Src/sort/selection_sort.c
index 21cd5d9..8947ec1 100644
--- a/Src/sort/selection_sort.c
+++ b/Src/sort/selection_sort.c
@@ -34,6 +34,8 @@
 
 #include "selection_sort.h"
 
+#include <stddef.h>
+
 #include "utils.h"
 
 void
@@ -45,13 +47,13 @@ SelectionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
     for (int32_t i = 0; i < (number_of_elements - 1); ++i) {
         int32_t min_index = i;
         for (j = i + 1; j < number_of_elements; ++j) {
-            if (compareFun(&elements[min_index * element_size], &elements[j * element_size])) {
+            if (compareFun(&elements[(size_t)min_index * (size_t)element_size], &elements[(size_t)j * (size_t)element_size])) {
                 min_index = j;
             }
         }
 
         if (min_index != i) {
-            Utils_swapElements(&elements[min_index * element_size], &elements[i * element_size], (uint32_t)element_size);
+            Utils_swapElements(&elements[(size_t)min_index * (size_t)element_size], &elements[(size_t)i * (size_t)element_size], (uint32_t)element_size);
         }
     }
 }
-- 
2.43.0

