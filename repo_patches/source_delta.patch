From dc1b45dd3fd93ddbb7e6dc3c05445e3d21f5d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 01/61] fix: do not leave a freed buffer with the caller when
 base64 padding is invalid

---
 src/voucher/serialize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 32e0925..ba92a0c 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -242,6 +242,7 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
         } else {
           log_error("Invalid padding");
           sys_free(*out);
+          *out = NULL;
           return -1;
         }
         break;
-- 
2.43.0


From 3feddba696f6532d9169abf694cba3350e15907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 02/61] fix: reject dates that are not exactly in the
 YYYY-MM-DDThh:mm:ssZ format

---
 src/voucher/serialize.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index ba92a0c..346890e 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -358,6 +358,15 @@ int serialize_str2time(const char *str, const struct tm *tm) {
     return -1;
   }
 
+  /* strptime ignores trailing text and accepts blanks and missing digits */
+  char buf[sizeof("9999-12-31T24:59:59Z") + 1];
+  if (strftime(buf, sizeof(buf), "%Y-%m-%dT%H:%M:%SZ", tm) !=
+          sizeof("9999-12-31T24:59:59Z") - 1 ||
+      strcmp(buf, str) != 0) {
+    log_error("malformed date");
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 8162a4354409e64192cbfef10cb07aa270b32b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 03/61] fix: escape special characters when writing JSON
 strings

---
 src/voucher/serialize.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 346890e..aac9283 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -393,15 +393,39 @@ char *serialize_escapestr(const char *str) {
     return NULL;
   }
 
-  size_t length = strlen(str);
   /* ""(2 chars) + \0 (1 char) = 3 chars*/
-  char *serialized = sys_malloc(length + 3);
+  size_t length = 3;
+  for (const char *c = str; *c != '\0'; c++) {
+    if (*c == '"' || *c == '\\') {
+      length += 2;
+    } else if ((unsigned char)*c < 0x20) {
+      length += sizeof("\\u0000") - 1;
+    } else {
+      length++;
+    }
+  }
+
+  char *serialized = sys_malloc(length);
 
   if (serialized == NULL) {
     log_errno("sys_malloc");
     return NULL;
   }
-  sprintf(serialized, "\"%s\"", str);
+
+  char *pos = serialized;
+  *pos++ = '"';
+  for (const char *c = str; *c != '\0'; c++) {
+    if (*c == '"' || *c == '\\') {
+      *pos++ = '\\';
+      *pos++ = *c;
+    } else if ((unsigned char)*c < 0x20) {
+      pos += sprintf(pos, "\\u%04x", (unsigned int)*c);
+    } else {
+      *pos++ = *c;
+    }
+  }
+  *pos++ = '"';
+  *pos = '\0';
 
   return serialized;
 }
-- 
2.43.0


From 90d04ac2695c7fd344698d49ffdec8719179bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 04/61] fix: accept only an exact voucher root member with
 scalar attributes

---
 src/voucher/voucher.c | 91 ++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 31 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 50084c9..fab6e6f 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -795,6 +795,16 @@ static int set_keyvalue_voucher(struct Voucher *voucher, const char *key,
   return 0;
 }
 
+/* Returns the index of the token that follows the value at idx */
+static int skip_json_value(const jsmntok_t *tokens, const int count,
+                           const int idx) {
+  int next = idx + 1;
+  while (next < count && tokens[next].start < tokens[idx].end) {
+    next++;
+  }
+  return next;
+}
+
 struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   if (json == NULL) {
     log_error("json param is NULL");
@@ -819,44 +829,63 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   }
 
   struct Voucher *voucher = init_voucher();
+  if (voucher == NULL) {
+    log_error("init_voucher fail");
+    return NULL;
+  }
+
   bool found_root = false;
 
-  for (int idx = 1; idx < count; idx++) {
-    int length = tokens[idx].end - tokens[idx].start;
-    /* Find the voucher root key */
-    if (strncmp(VOUCHER_ROOT_NAME, (char *)(json + tokens[idx].start),
-                length) == 0) {
-      idx++;
-      if (idx < count && tokens[idx].type == JSMN_OBJECT) {
-        /* Iterate over all the key/value pairs of the voucher root */
-        for (int j = 0; j < tokens[idx].size; j++) {
-          int key_idx = idx + (j * 2) + 1;
-          int value_idx = idx + (j * 2 + 1) + 1;
-          if (key_idx < count && value_idx < count) {
-            jsmntok_t *key_token = &tokens[key_idx];
-            jsmntok_t *value_token = &tokens[value_idx];
-            size_t key_length = key_token->end - key_token->start;
-            size_t value_length = value_token->end - value_token->start;
-            const char *key = (char *)(json + key_token->start);
-            const char *value = (char *)(json + value_token->start);
-            if (set_keyvalue_voucher(voucher, key, key_length, value,
-                                     value_length) < 0) {
-              log_trace("set_keyvalue_voucher fail");
-              goto deserialize_voucher_fail;
-            }
-          } else {
-            log_error("Malformed voucher json");
-            goto deserialize_voucher_fail;
-          }
-        }
-        found_root = true;
-      } else {
+  /* Iterate over the members of the json object to find the voucher root key */
+  for (int idx = 1; idx + 1 < count;
+       idx = skip_json_value(tokens, count, idx + 1)) {
+    const jsmntok_t *key_token = &tokens[idx];
+    const jsmntok_t *root_token = &tokens[idx + 1];
+    if (key_token->type != JSMN_STRING || key_token->size != 1) {
+      log_error("Malformed voucher json");
+      goto deserialize_voucher_fail;
+    }
+
+    if (!check_size_str_equal(VOUCHER_ROOT_NAME,
+                              (char *)(json + key_token->start),
+                              key_token->end - key_token->start)) {
+      continue;
+    }
+
+    if (root_token->type != JSMN_OBJECT) {
+      log_error("Malformed voucher json");
+      goto deserialize_voucher_fail;
+    }
+
+    /* Iterate over all the key/value pairs of the voucher root */
+    for (int j = 0; j < root_token->size; j++) {
+      int attr_idx = idx + (j * 2) + 2;
+      if (attr_idx + 1 >= count) {
         log_error("Malformed voucher json");
         goto deserialize_voucher_fail;
       }
 
-      break;
+      const jsmntok_t *attr_token = &tokens[attr_idx];
+      const jsmntok_t *value_token = &tokens[attr_idx + 1];
+      if (attr_token->type != JSMN_STRING || attr_token->size != 1 ||
+          value_token->size != 0 ||
+          (value_token->type != JSMN_STRING &&
+           value_token->type != JSMN_PRIMITIVE)) {
+        log_error("Malformed voucher json");
+        goto deserialize_voucher_fail;
+      }
+
+      if (set_keyvalue_voucher(voucher, (char *)(json + attr_token->start),
+                               attr_token->end - attr_token->start,
+                               (char *)(json + value_token->start),
+                               value_token->end - value_token->start) < 0) {
+        log_trace("set_keyvalue_voucher fail");
+        goto deserialize_voucher_fail;
+      }
     }
+
+    found_root = true;
+    break;
   }
 
   if (!found_root) {
-- 
2.43.0


From 6afb412ae6701ba14df3abef77f615d8f8cc5061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 05/61] fix: decode JSON escape sequences when reading a
 voucher

---
 src/voucher/voucher.c | 134 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 131 insertions(+), 3 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index fab6e6f..f20f362 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -795,6 +795,124 @@ static int set_keyvalue_voucher(struct Voucher *voucher, const char *key,
   return 0;
 }
 
+static int parse_hex4(const char *str, const size_t length,
+                      unsigned long *value) {
+  *value = 0;
+  if (length < 4) {
+    return -1;
+  }
+
+  for (size_t idx = 0; idx < 4; idx++) {
+    const char c = str[idx];
+    unsigned long digit;
+    if (c >= '0' && c <= '9') {
+      digit = c - '0';
+    } else if (c >= 'a' && c <= 'f') {
+      digit = c - 'a' + 10;
+    } else if (c >= 'A' && c <= 'F') {
+      digit = c - 'A' + 10;
+    } else {
+      return -1;
+    }
+    *value = (*value << 4) | digit;
+  }
+  return 0;
+}
+
+/* Decodes the escape sequences of a json string. The decoded string is never
+ * longer than the encoded one. Returns NULL on failure. */
+static char *unescape_json_str(const char *str, const size_t length,
+                               size_t *out_length) {
+  char *out = sys_malloc(length + 1);
+  if (out == NULL) {
+    log_errno("sys_malloc");
+    return NULL;
+  }
+
+  char *pos = out;
+  size_t idx = 0;
+  while (idx < length) {
+    if (str[idx] != '\\') {
+      *pos++ = str[idx++];
+      continue;
+    }
+
+    if (++idx >= length) {
+      goto unescape_json_str_fail;
+    }
+
+    const char c = str[idx++];
+    unsigned long code, low;
+    switch (c) {
+      case '"':
+      case '\\':
+      case '/':
+        *pos++ = c;
+        break;
+      case 'b':
+        *pos++ = '\b';
+        break;
+      case 'f':
+        *pos++ = '\f';
+        break;
+      case 'n':
+        *pos++ = '\n';
+        break;
+      case 'r':
+        *pos++ = '\r';
+        break;
+      case 't':
+        *pos++ = '\t';
+        break;
+      case 'u':
+        if (parse_hex4(str + idx, length - idx, &code) < 0) {
+          goto unescape_json_str_fail;
+        }
+        idx += 4;
+
+        if (code >= 0xD800 && code <= 0xDBFF) {
+          if (length - idx < 6 || str[idx] != '\\' || str[idx + 1] != 'u' ||
+              parse_hex4(str + idx + 2, length - idx - 2, &low) < 0 ||
+              low < 0xDC00 || low > 0xDFFF) {
+            goto unescape_json_str_fail;
+          }
+          idx += 6;
+          code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+        } else if (code == 0 || (code >= 0xDC00 && code <= 0xDFFF)) {
+          goto unescape_json_str_fail;
+        }
+
+        if (code < 0x80) {
+          *pos++ = (char)code;
+        } else if (code < 0x800) {
+          *pos++ = (char)(0xC0 | (code >> 6));
+          *pos++ = (char)(0x80 | (code & 0x3F));
+        } else if (code < 0x10000) {
+          *pos++ = (char)(0xE0 | (code >> 12));
+          *pos++ = (char)(0x80 | ((code >> 6) & 0x3F));
+          *pos++ = (char)(0x80 | (code & 0x3F));
+        } else {
+          *pos++ = (char)(0xF0 | (code >> 18));
+          *pos++ = (char)(0x80 | ((code >> 12) & 0x3F));
+          *pos++ = (char)(0x80 | ((code >> 6) & 0x3F));
+          *pos++ = (char)(0x80 | (code & 0x3F));
+        }
+        break;
+      default:
+        goto unescape_json_str_fail;
+    }
+  }
+
+  *pos = '\0';
+  *out_length = pos - out;
+  return out;
+
+unescape_json_str_fail:
+  log_error("Malformed json string");
+  sys_free(out);
+  return NULL;
+}
+
 /* Returns the index of the token that follows the value at idx */
 static int skip_json_value(const jsmntok_t *tokens, const int count,
                            const int idx) {
@@ -875,13 +993,23 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
         goto deserialize_voucher_fail;
       }
 
+      size_t value_length = 0;
+      char *value = unescape_json_str((char *)(json + value_token->start),
+                                      value_token->end - value_token->start,
+                                      &value_length);
+      if (value == NULL) {
+        log_error("unescape_json_str fail");
+        goto deserialize_voucher_fail;
+      }
+
       if (set_keyvalue_voucher(voucher, (char *)(json + attr_token->start),
-                               attr_token->end - attr_token->start,
-                               (char *)(json + value_token->start),
-                               value_token->end - value_token->start) < 0) {
+                               attr_token->end - attr_token->start, value,
+                               value_length) < 0) {
         log_trace("set_keyvalue_voucher fail");
+        sys_free(value);
         goto deserialize_voucher_fail;
       }
+      sys_free(value);
     }
 
     found_root = true;
-- 
2.43.0


From 6a3eb187a79fc72b48b114af2e2bf4007eede15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 06/61] fix: release the old value when a voucher attribute is
 set again

---
 src/voucher/voucher.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index f20f362..cc17581 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -182,10 +182,13 @@ static int set_attr_nstr_voucher(struct Voucher *voucher,
   }
 
   if (length < MAX_SERIAL_NUMBER_SIZE) {
-    if ((voucher->serial_number = sys_strndup(value, length)) == NULL) {
+    char *serial_number = sys_strndup(value, length);
+    if (serial_number == NULL) {
       log_errno("sys_strdup");
       return -1;
     }
+    sys_free(voucher->serial_number);
+    voucher->serial_number = serial_number;
   } else {
     log_error("Attribute value exceeds max size");
     return -1;
@@ -215,6 +218,19 @@ int set_attr_str_voucher(struct Voucher *voucher,
                                sys_strnlen_s(value, MAX_SERIAL_NUMBER_SIZE));
 }
 
+static int replace_attr_array(struct BinaryArray *attr_value,
+                              const struct BinaryArray *value) {
+  struct BinaryArray copy = {0};
+  if (copy_binary_array(&copy, value) < 0) {
+    log_error("copy_binary_array fail");
+    return -1;
+  }
+
+  free_binary_array_content(attr_value);
+  *attr_value = copy;
+  return 0;
+}
+
 int set_attr_array_voucher(struct Voucher *voucher,
                            const enum VoucherAttributes attr,
                            const struct BinaryArray *value) {
@@ -230,28 +246,29 @@ int set_attr_array_voucher(struct Voucher *voucher,
 
   switch (attr) {
     case ATTR_IDEVID_ISSUER:
-      if (copy_binary_array(&voucher->idevid_issuer, value) < 0) {
+      if (replace_attr_array(&voucher->idevid_issuer, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PINNED_DOMAIN_CERT:
-      if (copy_binary_array(&voucher->pinned_domain_cert, value) < 0) {
+      if (replace_attr_array(&voucher->pinned_domain_cert, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_NONCE:
-      if (copy_binary_array(&voucher->nonce, value) < 0) {
+      if (replace_attr_array(&voucher->nonce, value) < 0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PRIOR_SIGNED_VOUCHER_REQUEST:
-      if (copy_binary_array(&voucher->prior_signed_voucher_request, value) <
+      if (replace_attr_array(&voucher->prior_signed_voucher_request, value) <
           0) {
         goto set_attr_array_voucher_fail;
       }
       break;
     case ATTR_PROXIMITY_REGISTRAR_CERT:
-      if (copy_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
+      if (replace_attr_array(&voucher->proximity_registrar_cert, value) <
+          0) {
         goto set_attr_array_voucher_fail;
       }
       break;
-- 
2.43.0


From 25248b953d3aa1fa99b0bdf6b11a9aa799715cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 07/61] fix: reject a NULL time value instead of dereferencing
 it

---
 src/voucher/voucher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index cc17581..6e740ec 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -115,6 +115,11 @@ int set_attr_time_voucher(struct Voucher *voucher,
     return -1;
   }
 
+  if (value == NULL) {
+    log_error("value param is NULL");
+    return -1;
+  }
+
   switch (attr) {
     case ATTR_CREATED_ON:
       sys_memcpy(&voucher->created_on, value, sizeof(struct tm));
-- 
2.43.0


From 2d3beca3e9c5bd258c2633ced64ff8eb60514038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 08/61] fix: do not unlink a list element that was never linked
 when a push fails

---
 src/voucher/array.c    | 2 +-
 src/voucher/keyvalue.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 219b92e..70c298d 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -75,7 +75,7 @@ int push_array_list(struct BinaryArrayList *arr_list, uint8_t *const arr,
 
   if ((el->arr = sys_memdup(arr, length)) == NULL) {
     log_errno("sys_memdup");
-    free_array_list_el(el);
+    sys_free(el);
     return -1;
   }
 
diff --git a/src/voucher/keyvalue.c b/src/voucher/keyvalue.c
index 0793024..576158a 100644
--- a/src/voucher/keyvalue.c
+++ b/src/voucher/keyvalue.c
@@ -92,14 +92,15 @@ int push_keyvalue_list(struct keyvalue_list *kv_list, char *const key,
   el->key = sys_strdup(key);
   if (el->key == NULL) {
     log_errno("sys_strdup");
-    free_keyvalue_list_el(el);
+    sys_free(el);
     return -1;
   }
 
   el->value = sys_strdup(value);
   if (el->value == NULL) {
     log_errno("sys_strdup");
-    free_keyvalue_list_el(el);
+    sys_free(el->key);
+    sys_free(el);
     return -1;
   }
 
-- 
2.43.0


From 86ecf49c709eb3ba72d4028a0fda0e6c2c789c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 09/61] fix: leave the destination of a failed array copy
 unchanged

---
 src/voucher/array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 70c298d..7dfa9b9 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -108,11 +108,13 @@ int copy_binary_array(struct BinaryArray *const dst,
     log_error("src param is NULL");
     return -1;
   }
-  dst->length = 0;
-  if ((dst->array = sys_memdup((uint8_t *)src->array, src->length)) == NULL) {
+
+  uint8_t *copy = sys_memdup((uint8_t *)src->array, src->length);
+  if (copy == NULL) {
     log_errno("sys_memdup");
     return -1;
   }
+  dst->array = copy;
   dst->length = src->length;
 
   return 0;
-- 
2.43.0


From c80f575328535e39fba15b8912ee312a5af8fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 10/61] fix: do not pass NULL to memcmp when comparing empty
 arrays

---
 src/voucher/array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 7dfa9b9..067e1bb 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -136,7 +136,8 @@ int compare_binary_array(const struct BinaryArray *src,
     return 0;
   }
 
-  if (sys_memcmp(dst->array, src->array, src->length) != 0) {
+  if (src->length &&
+      sys_memcmp(dst->array, src->array, src->length) != 0) {
     return 0;
   };
 
-- 
2.43.0


From b1fc4a5bce5b8e978bd867d14a0a1620340b61b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 11/61] fix: do not free the signer certificates that belong to
 the CMS message

---
 src/voucher/crypto_ossl.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7b13840..f64e5b6 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1570,14 +1570,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   int length = sk_X509_num(signers);
 
   if (!length) {
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return 0;
   }
 
   *out_certs = init_array_list();
   if (*out_certs == NULL) {
     log_error("init_buffer_list fail");
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return -1;
   }
 
@@ -1588,7 +1588,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     if (cert_length < 0) {
       log_error("cert_to_derbuf fail");
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
@@ -1596,14 +1596,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
       log_error("push_buffer_list fail");
       sys_free(cert);
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
     sys_free(cert);
   }
 
-  sk_X509_pop_free(signers, X509_free);
+  sk_X509_free(signers);
   return 0;
 }
 
-- 
2.43.0


From 28475e706f23dc296229597b24bfcc92986c4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 12/61] fix: release the CMS content when extracting the
 signers fails

---
 src/voucher/crypto_ossl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index f64e5b6..2786290 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1675,6 +1675,8 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
     *out_certs = NULL;
     if (exatract_cms_certs(content, out_certs) < 0) {
       log_error("exatract_cms_certs fail");
+      sys_free(*data);
+      *data = NULL;
       goto crypto_verify_cms_fail;
     }
   }
-- 
2.43.0


From d2103ad2169713a6f9009d1626491d50951ccb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 13/61] fix: release the signer list when the signed content is
 not a voucher

---
 src/voucher/voucher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 6e740ec..b12d3b6 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -1214,6 +1214,10 @@ struct Voucher *verify_cms_voucher(const struct BinaryArray *cms,
   if (voucher == NULL) {
     log_error("deserialize_voucher fail");
     sys_free(data);
+    if (out_certs != NULL) {
+      free_array_list(*out_certs);
+      *out_certs = NULL;
+    }
     return NULL;
   }
 
-- 
2.43.0


From 3c12db322dacb94a1488c3e5027f9e2bf04f42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 14/61] fix: check the signatures and the anchor of the chain
 when verifying a certificate

---
 src/voucher/crypto_ossl.c | 46 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 2786290..713d85e 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -9,6 +9,7 @@
  * utilities.
  */
 
+#include <stdbool.h>
 #include <stddef.h>
 #include <stdint.h>
 #include <openssl/cms.h>
@@ -1296,6 +1297,43 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
+/* X509_build_chain matches certificates by name only. Check that every
+ * certificate of the chain is really signed by the next one. */
+static int verify_chain_signatures(const STACK_OF(X509) * chain) {
+  for (int idx = 0; idx < sk_X509_num(chain) - 1; idx++) {
+    EVP_PKEY *pkey = X509_get0_pubkey(sk_X509_value(chain, idx + 1));
+
+    if (pkey == NULL || X509_verify(sk_X509_value(chain, idx), pkey) < 1) {
+      log_error("certificate signature verification fail");
+      return -1;
+    }
+  }
+
+  return 0;
+}
+
+/* Check that a chain leads to a certificate from the trust store or, without a
+ * trust store, to one of the given certificates. */
+static bool is_chain_anchored(const STACK_OF(X509) * chain,
+                              const STACK_OF(X509) * certs,
+                              X509_STORE *store) {
+  const X509 *last = sk_X509_value(chain, sk_X509_num(chain) - 1);
+  STACK_OF(X509) *store_certs = NULL;
+  bool found = false;
+
+  if (store != NULL) {
+    store_certs = X509_STORE_get1_all_certs(store);
+    certs = store_certs;
+  }
+
+  for (int idx = 0; idx < sk_X509_num(certs) && !found; idx++) {
+    found = X509_cmp(sk_X509_value(certs, idx), last) == 0;
+  }
+
+  sk_X509_pop_free(store_certs, X509_free);
+  return found;
+}
+
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store) {
@@ -1336,7 +1374,7 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   }
 
   STACK_OF(X509) *out_cert_stack =
-      X509_build_chain(x509, cert_stack, cert_store, 0, NULL, NULL);
+      X509_build_chain(x509, cert_stack, cert_store, 1, NULL, NULL);
   if (out_cert_stack == NULL) {
     log_error("X509_build_chain fail");
   }
@@ -1346,6 +1384,12 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   if (sk_X509_num(out_cert_stack) < 1) {
     log_error("cert stack is empty");
     ret = -1;
+  } else if (verify_chain_signatures(out_cert_stack) < 0) {
+    log_error("verify_chain_signatures fail");
+    ret = -1;
+  } else if (!is_chain_anchored(out_cert_stack, cert_stack, cert_store)) {
+    log_error("certificate chain doesn't lead to the given certificates");
+    ret = -1;
   }
 
   free_x509_store(cert_store, x509_store_list);
-- 
2.43.0


From b638df007eeb2540e76032f21ef75f7493a1c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 15/61] fix: do not leave a freed list with the caller when
 loading certificates fails

---
 src/brski/config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index d109f39..d931d91 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -694,6 +694,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
       log_error("file_to_x509buf fail");
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
 
@@ -701,6 +702,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
       log_error("push_array_list fail");
       free_binary_array(cert);
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
     free_binary_array(cert);
-- 
2.43.0


From 81cf60d0d093ba67e321b7cd44a99251f171683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 16/61] fix: reject a pledge voucher-request without serial
 number instead of dereferencing NULL

---
 src/voucher/request.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 59bab6b..b88ebae 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -128,6 +128,12 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
 
   /* check if the serial number in the pledge voucher is the same to idevid
    * cert serial number */
+  if (!is_attr_voucher_nonempty(pledge_voucher_request, ATTR_SERIAL_NUMBER)) {
+    log_error("serial-number is missing");
+    free_voucher(pledge_voucher_request);
+    return NULL;
+  }
+
   const char *const *pledge_serial_number =
       get_attr_str_voucher(pledge_voucher_request, ATTR_SERIAL_NUMBER);
   if (pledge_serial_number == NULL) {
-- 
2.43.0


From 3bd44b7bd357f453fe741af7c8eda31343eccbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 17/61] fix: reject a pledge voucher-request that pins no
 registrar certificate

---
 src/voucher/request.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index b88ebae..0ec98ed 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -150,6 +150,13 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
 
   /* check if the proximity registrar certificat is the same as the registrar
    * certificate */
+  if (!is_attr_voucher_nonempty(pledge_voucher_request,
+                                ATTR_PROXIMITY_REGISTRAR_CERT)) {
+    log_error("proximity-registrar-cert is missing");
+    free_voucher(pledge_voucher_request);
+    return NULL;
+  }
+
   const struct BinaryArray *proximity_registrar_cert = get_attr_array_voucher(
       pledge_voucher_request, ATTR_PROXIMITY_REGISTRAR_CERT);
 
-- 
2.43.0


From b2f46e2453dd8666ad436e67d41bcc60561ca452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 18/61] fix: reject a missing registrar certificate instead of
 dereferencing NULL

---
 src/voucher/request.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 0ec98ed..a91f627 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -473,6 +473,11 @@ int verify_masa_pledge_voucher(
     return -1;
   }
 
+  if (registrar_tls_cert == NULL) {
+    log_error("registrar_tls_cert param is NULL");
+    return -1;
+  }
+
   /* The pledge MUST verify the voucher signature using the
    * manufacturer-installed trust anchor(s) associated with the manufacturer's
    * MASA (this is likely included in the pledge's firmware). Management of the
-- 
2.43.0


From 86b9857b4b296e1d5097412707f82798ea3d538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 19/61] fix: release the signer list when a verified voucher is
 not accepted

---
 src/voucher/request.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index a91f627..5af01f4 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -594,6 +594,10 @@ int verify_masa_pledge_voucher(
   return 0;
 
 verify_masa_pledge_voucher_fail:
+  if (pledge_out_certs != NULL) {
+    free_array_list(*pledge_out_certs);
+    *pledge_out_certs = NULL;
+  }
   free_voucher(masa_pledge_voucher);
   return -1;
 }
-- 
2.43.0


From 13c4df8cf9421ffcd77acecedd48fe550d05ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 20/61] fix: require the pinned certificate to vouch for the
 registrar also with a domain store

---
 src/voucher/request.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 5af01f4..5827e69 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -572,7 +572,18 @@ int verify_masa_pledge_voucher(
 
     free_binary_array_content(&cert_copy);
 
+    /* The registrar has to be certified by the pinned certificate, also when
+     * the domain store alone would vouch for the registrar. */
     if (crypto_verify_cert(registrar_tls_cert->array,
+                           registrar_tls_cert->length, intermediate_certs,
+                           NULL) < 0) {
+      log_error("crypto_verify_cert fail");
+      free_array_list(intermediate_certs);
+      goto verify_masa_pledge_voucher_fail;
+    }
+
+    if (domain_store != NULL &&
+        crypto_verify_cert(registrar_tls_cert->array,
                            registrar_tls_cert->length, intermediate_certs,
                            domain_store) < 0) {
       log_error("crypto_verify_cert fail");
-- 
2.43.0


From 4f3fac2a18389d140905ea47b502f745f553724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 21/61] fix: answer 502 when the MASA does not grant the
 voucher

---
 src/brski/registrar/registrar_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 60d8e10..197cf2b 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -118,12 +118,12 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
     return -1;
   }
 
-  if (status >= 400) {
+  if (status != 200) {
     log_error("https_post_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
     crypto_free_certcontext(http_res.peer_certificate);
-    return 400;
+    return -1;
   }
 
   crypto_free_certcontext(http_res.peer_certificate);
-- 
2.43.0


From aed28a602bb12a90bdf5358532102eb038c9b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 22/61] fix: do not share the pinned certificate of a MASA
 request between requests

---
 src/brski/masa/masa_api.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 4782073..0aae5f4 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -63,6 +63,10 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct registrar_config *rconf = context->rconf;
   struct masa_config *mconf = context->mconf;
 
+  /* Requests are served concurrently, each one needs its own certificate */
+  struct MasaContext request_context = *context;
+  request_context.ldevid_ca_cert = NULL;
+
   struct BinaryArray voucher_request_cms = {};
   struct BinaryArray *masa_sign_cert = NULL;
   struct BinaryArray *masa_sign_key = NULL;
@@ -91,8 +95,8 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((context->ldevid_ca_cert = file_to_x509buf(mconf->ldevid_ca_cert_path)) ==
-      NULL) {
+  if ((request_context.ldevid_ca_cert =
+           file_to_x509buf(mconf->ldevid_ca_cert_path)) == NULL) {
     log_error("file_to_x509buf fail");
     goto masa_requestvoucher_fail;
   }
@@ -136,7 +140,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   }
 
   masa_pledge_voucher = sign_masa_pledge_voucher(
-      &voucher_request_cms, &expires_on, voucher_req_cb, user_ctx,
+      &voucher_request_cms, &expires_on, voucher_req_cb, &request_context,
       masa_sign_cert, masa_sign_key, registrar_verify_certs,
       registrar_store_certs, pledge_verify_certs, pledge_store_certs,
       additional_masa_certs);
@@ -156,7 +160,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   response.assign((char *)base64);
 
   sys_free(base64);
-  free_binary_array(context->ldevid_ca_cert);
+  free_binary_array(request_context.ldevid_ca_cert);
   free_binary_array(masa_sign_key);
   free_binary_array(masa_sign_cert);
   free_array_list(registrar_verify_certs);
@@ -169,7 +173,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   return 200;
 
 masa_requestvoucher_fail:
-  free_binary_array(context->ldevid_ca_cert);
+  free_binary_array(request_context.ldevid_ca_cert);
   free_binary_array(masa_sign_cert);
   free_binary_array(masa_sign_key);
   free_array_list(registrar_verify_certs);
-- 
2.43.0


From ba04897855f2a2c15e2814ca398f07fcc5779d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 23/61] fix: notice undecodable base64 and failed key or
 certificate generation

---
 src/brski/brski.cpp                   |  4 +++-
 src/brski/masa/masa_api.cpp           |  8 +++++---
 src/brski/pledge/pledge_request.cpp   | 23 ++++++++++++++---------
 src/brski/registrar/registrar_api.cpp | 15 +++++++++++----
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 92ab7d3..62d259c 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -427,12 +427,14 @@ int main(int argc, char *argv[]) {
 
       struct BinaryArray masa_pledge_voucher_cms = {};
 
-      if ((masa_pledge_voucher_cms.length =
+      ssize_t length;
+      if ((length =
                serialize_base64str2array((const uint8_t *)inbuf, sz,
                                          &masa_pledge_voucher_cms.array)) < 0) {
         log_errno("serialize_base64str2array fail");
         return EXIT_FAILURE;
       }
+      masa_pledge_voucher_cms.length = length;
 
       struct BinaryArray *registrar_tls_cert =
           file_to_x509buf(in_filename.c_str());
diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 0aae5f4..56aa802 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -67,6 +67,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct MasaContext request_context = *context;
   request_context.ldevid_ca_cert = NULL;
 
+  ssize_t length;
   struct BinaryArray voucher_request_cms = {};
   struct BinaryArray *masa_sign_cert = NULL;
   struct BinaryArray *masa_sign_key = NULL;
@@ -88,12 +89,13 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((voucher_request_cms.length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &voucher_request_cms.array)) < 0) {
+  if ((length = serialize_base64str2array((const uint8_t *)cms_str,
+                                          strlen(cms_str),
+                                          &voucher_request_cms.array)) < 0) {
     log_errno("serialize_base64str2array fail");
     goto masa_requestvoucher_fail;
   }
+  voucher_request_cms.length = length;
 
   if ((request_context.ldevid_ca_cert =
            file_to_x509buf(mconf->ldevid_ca_cert_path)) == NULL) {
diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 5f57818..622f11f 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -176,14 +176,16 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
 
   const char *masa_pledge_voucher_str = http_res.response.c_str();
   struct BinaryArray masa_pledge_voucher_cms = {};
+  ssize_t length;
 
-  if ((masa_pledge_voucher_cms.length =
-           serialize_base64str2array((const uint8_t *)masa_pledge_voucher_str,
-                                     strlen(masa_pledge_voucher_str),
-                                     &masa_pledge_voucher_cms.array)) < 0) {
+  if ((length = serialize_base64str2array(
+           (const uint8_t *)masa_pledge_voucher_str,
+           strlen(masa_pledge_voucher_str), &masa_pledge_voucher_cms.array)) <
+      0) {
     log_errno("serialize_base64str2array fail");
     goto post_voucher_pledge_request_fail;
   }
+  masa_pledge_voucher_cms.length = length;
 
   if (verify_masa_pledge_request(pconf, &masa_pledge_voucher_cms,
                                  registrar_tls_cert, pinned_domain_cert) < 0) {
@@ -222,6 +224,7 @@ uint64_t gen_rand64(void) {
 
 int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
+  ssize_t length;
   uint8_t rand[8];
   char rands[17];
   struct BinaryArray buf = {.array = rand, .length = 8};
@@ -271,18 +274,20 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     goto generate_sign_cert_err;
   }
 
-  if ((scert_key->length = (size_t)crypto_generate_eckey(&scert_key->array)) <
-      0) {
+  if ((length = crypto_generate_eckey(&scert_key->array)) < 0) {
     log_error("crypto_generate_eckey fail");
     goto generate_sign_cert_err;
   }
+  scert_key->length = length;
 
-  if ((scert_cert->length = (size_t)crypto_generate_eccert(
-           &sign_cert_meta, scert_key->array, scert_key->length,
-           &scert_cert->array)) < 0) {
+  if ((length =
+           crypto_generate_eccert(&sign_cert_meta, scert_key->array,
+                                  scert_key->length, &scert_cert->array)) < 0) {
+    log_error("crypto_generate_eccert fail");
     free_binary_array_content(scert_key);
     goto generate_sign_cert_err;
   }
+  scert_cert->length = length;
 
   free_keyvalue_list(sign_cert_meta.issuer);
   free_keyvalue_list(sign_cert_meta.subject);
diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 197cf2b..35c4f0d 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -188,15 +188,22 @@ int registrar_requestvoucher(const RequestHeader &request_header,
 
   auto pledge_voucher_request_cms =
       std::unique_ptr<BinaryArray, void (*)(BinaryArray *)>{
-          static_cast<BinaryArray *>(std::malloc(sizeof(BinaryArray))),
+          init_binary_array(),
           [](BinaryArray *b) { free_binary_array(b); },
       };
-  if ((pledge_voucher_request_cms->length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &pledge_voucher_request_cms->array)) < 0) {
+  if (pledge_voucher_request_cms == nullptr) {
+    log_error("init_binary_array fail");
+    return 500;
+  }
+
+  ssize_t length;
+  if ((length = serialize_base64str2array(
+           (const uint8_t *)cms_str, strlen(cms_str),
+           &pledge_voucher_request_cms->array)) < 0) {
     log_errno("serialize_base64str2array fail");
     return 400;
   }
+  pledge_voucher_request_cms->length = length;
 
   if (get_localtime(&created_on) < 0) {
     log_error("get_localtime fail");
-- 
2.43.0


From b08a12665da154030dfe61938627dc3fa0dc009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 24/61] fix: do not write past the end of the standard input
 buffer

---
 src/brski/brski.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 62d259c..ce8652c 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -407,7 +407,7 @@ int main(int argc, char *argv[]) {
     }
     case CommandId::COMMAND_VERIFY_MASA: {
       struct BinaryArray pinned_domain_cert = {};
-      uint8_t inbuf[MAX_STDIN_SIZE];
+      uint8_t inbuf[MAX_STDIN_SIZE + 1];
       if (in_filename.empty()) {
         log_error("No input registrar certificate file");
         return EXIT_FAILURE;
-- 
2.43.0


From d282c9a5f172ae050bbc12d28c904550f483748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 25/61] fix: do not free an undecodable nonce twice

---
 src/brski/pledge/pledge_request.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 622f11f..c1f68f6 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -52,7 +52,6 @@ int verify_masa_pledge_request(struct pledge_config *pconf,
                                             strlen(pconf->nonce),
                                             &nonce->array)) < 0) {
       log_errno("serialize_base64str2array fail");
-      free_binary_array(nonce);
       goto verify_masa_pledge_request_fail;
     }
     nonce->length = length;
-- 
2.43.0


From 834a78cf296f758f6429194f447150c706bde4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 26/61] fix: reject certificate names with an embedded NUL
 instead of cutting them short

---
 src/voucher/crypto_ossl.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 713d85e..c5fc886 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -656,12 +656,19 @@ int get_x509_entry(X509_NAME *name, int nid, char **out) {
 
   ASN1_STRING *d = X509_NAME_ENTRY_get_data(e);
   unsigned char *str = NULL;
-  if (ASN1_STRING_to_UTF8(&str, d) < 0) {
+  int length = ASN1_STRING_to_UTF8(&str, d);
+  if (length < 0) {
     log_error("ASN1_STRING_to_UTF8 code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     return -1;
   }
 
+  if (strlen((char *)str) != (size_t)length) {
+    log_error("name entry contains a NUL character");
+    OPENSSL_free(str);
+    return -1;
+  }
+
   *out = (char *)str;
 
   return 0;
-- 
2.43.0


From 10029eff4491c82f039ec9801678d94b5758d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 27/61] fix: reject an enrolment whose certificates cannot be
 described in the log

---
 src/brski/registrar/registrar_api.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 35c4f0d..f740e41 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -28,7 +28,7 @@ extern "C" {
 #include "../config.h"
 }
 
-void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
+int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
   imeta.issuer = init_keyvalue_list();
   imeta.subject = init_keyvalue_list();
@@ -37,14 +37,16 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   if (imeta.issuer == NULL || imeta.subject == NULL) {
     log_error("error allocation metadata");
-    return;
+    free_keyvalue_list(imeta.issuer);
+    free_keyvalue_list(imeta.subject);
+    return -1;
   }
 
   if (crypto_getcert_meta(icert, &imeta) < 0) {
     log_error("crypto_getcert_meta fail");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
-    return;
+    return -1;
   }
 
   char *iserial = crypto_getcert_serial(&imeta);
@@ -57,7 +59,9 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     log_error("error allocation metadata");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
-    return;
+    free_keyvalue_list(lmeta.issuer);
+    free_keyvalue_list(lmeta.subject);
+    return -1;
   }
 
   if (crypto_getcert_meta(lcert, &lmeta) < 0) {
@@ -66,7 +70,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     free_keyvalue_list(imeta.subject);
     free_keyvalue_list(lmeta.issuer);
     free_keyvalue_list(lmeta.subject);
-    return;
+    return -1;
   }
 
   char *lserial = crypto_getcert_serial(&lmeta);
@@ -85,6 +89,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   free_keyvalue_list(imeta.subject);
   free_keyvalue_list(lmeta.issuer);
   free_keyvalue_list(lmeta.subject);
+  return 0;
 }
 
 int post_voucher_request(struct BinaryArray *voucher_request_cms,
@@ -416,14 +421,18 @@ int registrar_est_simpleenroll(const RequestHeader &request_header,
     goto registrar_signcert_err;
   }
 
-  response.assign((char *)cert_str);
-
   scert = crypto_cert2context(cert_to_sign.array, cert_to_sign.length);
 
-  if (scert != NULL) {
-    save_to_log(peer_certificate, scert, context->log_path);
+  if (scert == NULL ||
+      save_to_log(peer_certificate, scert, context->log_path) < 0) {
+    log_error("save_to_log fail");
     crypto_free_certcontext(scert);
+    sys_free(cert_str);
+    goto registrar_signcert_err;
   }
+  crypto_free_certcontext(scert);
+
+  response.assign((char *)cert_str);
 
   sys_free(cert_str);
   free_binary_array_content(&cert_to_sign);
-- 
2.43.0


From 95dd86bbde26337a3d27135b44b73ef3ad11bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 28/61] fix: escape the serial numbers written to the registrar
 log

---
 src/brski/registrar/registrar_api.cpp | 28 +++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index f740e41..4199159 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -75,21 +75,33 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   char *lserial = crypto_getcert_serial(&lmeta);
 
-  FILE *f = fopen(log_path, "a");
-  if (f != NULL) {
-    fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n", time(NULL),
-            imeta.serial_number, (iserial != NULL) ? iserial : "NULL",
-            lmeta.serial_number, (lserial != NULL) ? lserial : "NULL");
-    fclose(f);
+  /* The serial numbers come from the peer, they must not forge log lines */
+  char *iserial_str = serialize_escapestr((iserial != NULL) ? iserial : "NULL");
+  char *lserial_str = serialize_escapestr((lserial != NULL) ? lserial : "NULL");
+  int result = 0;
+
+  if (iserial_str == NULL || lserial_str == NULL) {
+    log_error("serialize_escapestr fail");
+    result = -1;
   } else {
-    log_errno("fopen fail");
+    FILE *f = fopen(log_path, "a");
+    if (f != NULL) {
+      fprintf(f, "%lu 0x%" PRIx64 " %s 0x%" PRIx64 " %s\n", time(NULL),
+              imeta.serial_number, iserial_str, lmeta.serial_number,
+              lserial_str);
+      fclose(f);
+    } else {
+      log_errno("fopen fail");
+    }
   }
 
+  sys_free(iserial_str);
+  sys_free(lserial_str);
   free_keyvalue_list(imeta.issuer);
   free_keyvalue_list(imeta.subject);
   free_keyvalue_list(lmeta.issuer);
   free_keyvalue_list(lmeta.subject);
-  return 0;
+  return result;
 }
 
 int post_voucher_request(struct BinaryArray *voucher_request_cms,
-- 
2.43.0


From 552f3b1f32a5a213ee74cb1e7cec19aa5e8544ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 29/61] fix: write each line of the registrar log without
 interruption

---
 src/brski/registrar/registrar_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 4199159..6a55611 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -9,6 +9,7 @@
  */
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <new>
 #include <string>
 
@@ -84,6 +85,10 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     log_error("serialize_escapestr fail");
     result = -1;
   } else {
+    /* A line may be longer than the buffer and is written in parts then */
+    static std::mutex log_mutex;
+    std::lock_guard<std::mutex> lock(log_mutex);
+
     FILE *f = fopen(log_path, "a");
     if (f != NULL) {
       fprintf(f, "%lu 0x%" PRIx64 " %s 0x%" PRIx64 " %s\n", time(NULL),
-- 
2.43.0


From 7e4d673ff50ec0f457df1d75c6d37f9b0cee0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 30/61] fix: log certificate serial numbers of more than 64
 bits

---
 src/brski/registrar/registrar_api.cpp | 14 +++++----
 src/voucher/crypto.h                  | 12 ++++++++
 src/voucher/crypto_ossl.c             | 41 +++++++++++++++++++++++++++
 3 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 6a55611..a124e4d 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -79,10 +79,13 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   /* The serial numbers come from the peer, they must not forge log lines */
   char *iserial_str = serialize_escapestr((iserial != NULL) ? iserial : "NULL");
   char *lserial_str = serialize_escapestr((lserial != NULL) ? lserial : "NULL");
+  char *icert_serial = crypto_getcert_serialhex(icert);
+  char *lcert_serial = crypto_getcert_serialhex(lcert);
   int result = 0;
 
-  if (iserial_str == NULL || lserial_str == NULL) {
-    log_error("serialize_escapestr fail");
+  if (iserial_str == NULL || lserial_str == NULL || icert_serial == NULL ||
+      lcert_serial == NULL) {
+    log_error("serialize_escapestr or crypto_getcert_serialhex fail");
     result = -1;
   } else {
     /* A line may be longer than the buffer and is written in parts then */
@@ -91,9 +94,8 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
     FILE *f = fopen(log_path, "a");
     if (f != NULL) {
-      fprintf(f, "%lu 0x%" PRIx64 " %s 0x%" PRIx64 " %s\n", time(NULL),
-              imeta.serial_number, iserial_str, lmeta.serial_number,
-              lserial_str);
+      fprintf(f, "%lu 0x%s %s 0x%s %s\n", time(NULL), icert_serial,
+              iserial_str, lcert_serial, lserial_str);
       fclose(f);
     } else {
       log_errno("fopen fail");
@@ -102,6 +104,8 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   sys_free(iserial_str);
   sys_free(lserial_str);
+  sys_free(icert_serial);
+  sys_free(lcert_serial);
   free_keyvalue_list(imeta.issuer);
   free_keyvalue_list(imeta.subject);
   free_keyvalue_list(lmeta.issuer);
diff --git a/src/voucher/crypto.h b/src/voucher/crypto.h
index a61e010..1787804 100644
--- a/src/voucher/crypto.h
+++ b/src/voucher/crypto.h
@@ -136,6 +136,18 @@ crypto_getcert_issuer(CRYPTO_CERT cert);
  */
 char *crypto_getcert_serial(struct crypto_cert_meta *meta);
 
+/**
+ * @brief Returns the certificate serial number as a hexadecimal string
+ *
+ * Unlike the metadata it is not limited to 64 bits.
+ * Caller is responsible for freeing the string
+ *
+ * @param[in] cert The input certificate structure
+ * @return The serial number string (lower case, without prefix) or NULL on
+ * failure
+ */
+__must_sys_free char *crypto_getcert_serialhex(CRYPTO_CERT cert);
+
 /**
  * @brief Generate a private RSA key for a given number of bits
  * The generated key is binary (DER) raw format
diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index c5fc886..d7bedd5 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -9,6 +9,7 @@
  * utilities.
  */
 
+#include <ctype.h>
 #include <stdbool.h>
 #include <stddef.h>
 #include <stdint.h>
@@ -802,6 +803,46 @@ struct BinaryArray *crypto_getcert_issuer(CRYPTO_CERT cert) {
   return issuer_array;
 }
 
+char *crypto_getcert_serialhex(CRYPTO_CERT cert) {
+  if (cert == NULL) {
+    log_error("cert param is NULL");
+    return NULL;
+  }
+
+  BIGNUM *bn = ASN1_INTEGER_to_BN(X509_get0_serialNumber((X509 *)cert), NULL);
+  if (bn == NULL) {
+    log_error("ASN1_INTEGER_to_BN fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    return NULL;
+  }
+
+  char *hex = BN_bn2hex(bn);
+  BN_free(bn);
+  if (hex == NULL) {
+    log_error("BN_bn2hex fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    return NULL;
+  }
+
+  char *in = hex, *out = NULL;
+  while (*in == '0' && in[1] != '\0') {
+    in++;
+  }
+
+  if ((out = sys_strdup(in)) == NULL) {
+    log_errno("sys_strdup");
+    OPENSSL_free(hex);
+    return NULL;
+  }
+  OPENSSL_free(hex);
+
+  for (char *c = out; *c != '\0'; c++) {
+    *c = (char)tolower((unsigned char)*c);
+  }
+
+  return out;
+}
+
 static int set_certificate_serialnumber(X509 *x509,
                                         const uint64_t serial_number) {
   ASN1_INTEGER *sn = ASN1_INTEGER_new();
-- 
2.43.0


From f76c863e292c3dd131d457c117682483d2a442a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 31/61] fix: put the UTC time into vouchers and
 voucher-requests

---
 src/brski/pledge/pledge_utils.c       |  4 ++--
 src/brski/registrar/registrar_api.cpp |  4 ++--
 src/utils/os.c                        | 17 +++++++++++++++++
 src/utils/os.h                        |  9 +++++++++
 src/voucher/serialize.c               |  4 ++--
 5 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/brski/pledge/pledge_utils.c b/src/brski/pledge/pledge_utils.c
index d8284a0..c2de393 100644
--- a/src/brski/pledge/pledge_utils.c
+++ b/src/brski/pledge/pledge_utils.c
@@ -35,8 +35,8 @@ voucher_pledge_request_to_array(const struct pledge_config *pconf,
 
   struct tm created_on = {0};
   if (pconf->created_on == NULL) {
-    if (get_localtime(&created_on) < 0) {
-      log_error("get_localtime fail");
+    if (get_utctime(&created_on) < 0) {
+      log_error("get_utctime fail");
       return NULL;
     }
   } else {
diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index a124e4d..f639ea3 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -231,8 +231,8 @@ int registrar_requestvoucher(const RequestHeader &request_header,
   }
   pledge_voucher_request_cms->length = length;
 
-  if (get_localtime(&created_on) < 0) {
-    log_error("get_localtime fail");
+  if (get_utctime(&created_on) < 0) {
+    log_error("get_utctime fail");
     return 500;
   }
 
diff --git a/src/utils/os.c b/src/utils/os.c
index 59e1639..a69d42a 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -110,3 +110,20 @@ int get_localtime(struct tm *current) {
 
   return 0;
 }
+
+int get_utctime(struct tm *current) {
+  time_t ltime;
+
+  if (current == NULL) {
+    log_error("current is NULL");
+    return -1;
+  }
+
+  time(&ltime);
+  if (gmtime_r(&ltime, current) == NULL) {
+    log_errno("gmtime_r");
+    return -1;
+  }
+
+  return 0;
+}
diff --git a/src/utils/os.h b/src/utils/os.h
index b470b74..3fa7cc7 100644
--- a/src/utils/os.h
+++ b/src/utils/os.h
@@ -181,4 +181,13 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len);
  * @return int 0 on success, -1 on failure
  */
 int get_localtime(struct tm *current);
+
+/**
+ * @brief Returns the time since Epoch (00:00:00 UTC, January 1, 1970)
+ * in UTC
+ *
+ * @param current The returned time since Epoch as struct tm
+ * @return int 0 on success, -1 on failure
+ */
+int get_utctime(struct tm *current);
 #endif /* OS_H */
diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index aac9283..f927d5e 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -373,8 +373,8 @@ int serialize_str2time(const char *str, const struct tm *tm) {
 char *serialize_localtime(void) {
   struct tm value = {0};
 
-  if (get_localtime(&value) < 0) {
-    log_error("get_localtime fail");
+  if (get_utctime(&value) < 0) {
+    log_error("get_utctime fail");
     return NULL;
   }
 
-- 
2.43.0


From 5a804461c767328a2a6cbfd50e4372e171b2ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 32/61] fix: convert times with the reentrant localtime_r

---
 src/utils/log.c | 5 +++--
 src/utils/os.c  | 6 ++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/utils/log.c b/src/utils/log.c
index 021e140..2cb2bcc 100644
--- a/src/utils/log.c
+++ b/src/utils/log.c
@@ -69,10 +69,11 @@ static const char *level_colors[] = LEVEL_COLORS;
 /* Write time to buf in format YYYY-MM-DD HH:MM:SS.ms */
 uint8_t time_to_str(char *buf) {
   struct timeval tv;
-  struct tm *tm;
+  struct tm local = {0};
+  const struct tm *tm = &local;
 
   gettimeofday(&tv, NULL);
-  tm = localtime(&tv.tv_sec);
+  localtime_r(&tv.tv_sec, &local);
 
   /* Add 1900 to get the right year value read the manual page for localtime()
    */
diff --git a/src/utils/os.c b/src/utils/os.c
index a69d42a..c8532d4 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -94,7 +94,6 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len) {
 
 int get_localtime(struct tm *current) {
   time_t ltime;
-  struct tm *newtime;
 
   if (current == NULL) {
     log_error("current is NULL");
@@ -102,11 +101,10 @@ int get_localtime(struct tm *current) {
   }
 
   time(&ltime);
-  if ((newtime = localtime(&ltime)) == NULL) {
-    log_errno("localtime");
+  if (localtime_r(&ltime, current) == NULL) {
+    log_errno("localtime_r");
     return -1;
   }
-  sys_memcpy(current, newtime, sizeof(struct tm));
 
   return 0;
 }
-- 
2.43.0


From 68855b47ab5e252a8e05342f8ed28921d59de285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 33/61] fix: make the serial numbers of device certificates
 random

---
 src/brski/pledge/pledge_request.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index c1f68f6..3da710d 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -210,15 +210,11 @@ std::string create_cert_string(const char *cert) {
   return out;
 }
 
-uint64_t gen_rand64(void) {
-  uint64_t value = 0x0;
+int gen_rand64(uint64_t *value) {
+  struct BinaryArray buf = {.array = (uint8_t *)value,
+                            .length = sizeof(*value)};
 
-  srand(time(0));
-
-  for (int i = 0; i < 64; i += 15) {
-    value = value * ((uint64_t)RAND_MAX + 1) + rand();
-  }
-  return value;
+  return crypto_getrand(&buf);
 }
 
 int generate_sign_cert(struct BinaryArray *scert_cert,
@@ -229,7 +225,7 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
   struct BinaryArray buf = {.array = rand, .length = 8};
 
   struct crypto_cert_meta sign_cert_meta = {
-      .serial_number = gen_rand64(),
+      .serial_number = 0,
       .not_before = 0,
       // Long-lived pledge certificate
       .not_after_absolute = (char *)"99991231235959Z",
@@ -237,12 +233,17 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
       .subject = NULL,
       .basic_constraints = (char *)"CA:false"};
 
+  if (gen_rand64(&sign_cert_meta.serial_number) < 0) {
+    log_error("gen_rand64 fail");
+    return -1;
+  }
+
   if (crypto_getrand(&buf) < 0) {
     log_error("crypto_getrand fail");
     return -1;
   }
 
-  printf_hex(rands, 16, rand, 8, 1);
+  printf_hex(rands, sizeof(rands), rand, 8, 1);
 
   if ((sign_cert_meta.issuer = init_keyvalue_list()) == NULL) {
     log_error("init_keyvalue_list fail");
-- 
2.43.0


From 58b50ad98472897f161575eb56d6c73ef435fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 34/61] fix: read every value of a repeated configuration key

---
 src/brski/config.c | 67 ++++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index d931d91..2de36b6 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <minIni.h>
 #include <string.h>
+#include <strings.h>
 #include <unistd.h>
 
 #include "config.h"
@@ -31,50 +32,52 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+struct config_value_list {
+  const char *section;
+  const char *key;
+  struct BinaryArrayList *values;
+  bool failed;
+};
+
+static int push_config_value(const char *section, const char *key,
+                             const char *value, void *user_data) {
+  struct config_value_list *list = (struct config_value_list *)user_data;
+
+  // sections are matched like in ini_gets
+  if (strcasecmp(section, list->section) != 0 || strcmp(key, list->key) != 0 ||
+      !strlen(value)) {
+    return 1;
+  }
+
+  if (push_array_list(list->values, (uint8_t *const)value, strlen(value) + 1,
+                      0) < 0) {
+    log_error("push_array_list fail");
+    list->failed = true;
+    return 0;
+  }
+
+  return 1;
+}
+
 int load_config_value_list(const char *section, const char *key,
                            const char *filename,
                            struct BinaryArrayList **value_list) {
   *value_list = NULL;
-  int idx = 0;
 
-  char *store = NULL;
-  if ((store = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-    log_errno("sys_zalloc");
-    return -1;
-  }
+  struct config_value_list list = {.section = section, .key = key};
 
-  if ((*value_list = init_array_list()) == NULL) {
+  if ((list.values = init_array_list()) == NULL) {
     log_error("init_array_list fail");
-    sys_free(store);
     return -1;
   }
 
-  while (ini_getkey(section, idx++, store, MAX_CONFIG_VALUE_SIZE, filename) >
-         0) {
-    char *value = NULL;
-    if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-      log_errno("sys_zalloc");
-      sys_free(store);
-      free_array_list(*value_list);
-      return -1;
-    }
-
-    ini_gets(section, store, "", value, INI_BUFFERSIZE, filename);
-
-    if (strcmp(store, key) == 0 && strlen(value)) {
-      if (push_array_list(*value_list, (uint8_t *const)value, strlen(value) + 1,
-                          0) < 0) {
-        sys_free(value);
-        sys_free(store);
-        free_array_list(*value_list);
-        return -1;
-      }
-    }
-
-    sys_free(value);
+  ini_browse(push_config_value, &list, filename);
+  if (list.failed) {
+    free_array_list(list.values);
+    return -1;
   }
 
-  sys_free(store);
+  *value_list = list.values;
   return 0;
 }
 
-- 
2.43.0


From 8159acf11a37766dd8e295eb7872b5f04d6404d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 35/61] fix: reject a configuration file that cannot be read

---
 src/brski/config.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index 2de36b6..a85790c 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -650,6 +650,13 @@ int load_brski_config(const char *filename, struct brski_config *const config) {
     log_errno("Couldn't open %s config file.", filename);
     return -1;
   }
+
+  // a directory can be opened, but not read
+  if (fgetc(fp) == EOF && ferror(fp)) {
+    log_errno("Couldn't read %s config file.", filename);
+    fclose(fp);
+    return -1;
+  }
   fclose(fp);
 
   if (load_pledge_config(filename, &config->pconf) < 0) {
-- 
2.43.0


From 9a3d66bb45424cd91ded1bcca28a6f5befe88c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 36/61] fix: handle negative failure results of the key
 generation calls

---
 src/voucher/crypto_ossl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index d7bedd5..d15bef2 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -438,7 +438,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -446,7 +446,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits)) {
+  if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) <= 0) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -454,7 +454,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -494,21 +494,21 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen_init(ctx)) {
+  if (EVP_PKEY_paramgen_init(ctx) <= 0) {
     log_error("EVP_PKEY_paramgen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1)) {
+  if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) <= 0) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen(ctx, &params)) {
+  if (EVP_PKEY_paramgen(ctx, &params) <= 0) {
     log_error("EVP_PKEY_paramgen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -526,14 +526,14 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   EVP_PKEY_free(params);
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
-- 
2.43.0


From 6530d4d1b7f47334aa698ae7bdb62e7efb102598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 37/61] fix: check that a certificate is added to the
 certificate stack

---
 src/voucher/crypto_ossl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index d15bef2..e153f7a 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1252,7 +1252,13 @@ static STACK_OF(X509) *
       sk_X509_pop_free(cert_stack, X509_free);
       return NULL;
     }
-    sk_X509_push(cert_stack, x509);
+    if (!sk_X509_push(cert_stack, x509)) {
+      log_error("sk_X509_push fail with code=%s",
+                ERR_error_string(ERR_get_error(), NULL));
+      X509_free(x509);
+      sk_X509_pop_free(cert_stack, X509_free);
+      return NULL;
+    }
   }
 
   return cert_stack;
-- 
2.43.0


From 769948d239de865da46c083663f22729864cc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 38/61] fix: free a certificate that cannot be added to the
 trust store

---
 src/voucher/crypto_ossl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index e153f7a..d5240c0 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1319,6 +1319,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_cert(x509_store, x509)) {
         log_error("X509_STORE_add_cert fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_free(x509);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1335,6 +1336,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_crl(x509_store, x509_crl)) {
         log_error("X509_STORE_add_crl fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_CRL_free(x509_crl);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1343,6 +1345,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
       log_error("push_ptr_list fail");
+      free_x509_store_cert(ptr, el->flags);
       free_x509_store(x509_store, *x509_store_list);
       return NULL;
     }
-- 
2.43.0


From 59079e36508eecd74a9d0226f5e736c429de9cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 39/61] fix: clean up when a certificate cannot be generated

---
 src/voucher/crypto_ossl.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index d5240c0..37e31b2 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -927,6 +927,11 @@ static int set_certificate_meta(X509 *x509,
       return -1;
     }
     ASN1_TIME *notAfter = ASN1_TIME_set(NULL, 0);
+    if (notAfter == NULL) {
+      log_error("ASN1_TIME_set fail");
+      return -1;
+    }
+
     if (ASN1_TIME_set_string(notAfter, meta->not_after_absolute) != 1) {
       log_error("ASN1_TIME_set_string failed to set string %s",
                 meta->not_after_absolute);
@@ -1027,8 +1032,6 @@ static int sign_sha256_certificate(X509 *x509, const EVP_PKEY *pkey) {
 ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
                                const uint8_t *key, const size_t key_length,
                                uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met param is NULL");
     return -1;
@@ -1044,6 +1047,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
@@ -1067,6 +1072,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    EVP_PKEY_free(pkey);
+    X509_free(x509);
     return -1;
   }
 
@@ -1091,8 +1098,6 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
 ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
                                 const uint8_t *key, const size_t key_length,
                                 uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met aparam is NULL");
     return -1;
@@ -1108,6 +1113,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
@@ -1131,6 +1138,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    EVP_PKEY_free(pkey);
+    X509_free(x509);
     return -1;
   }
 
-- 
2.43.0


From 3757e497e71aac67ad4ab5261c4a19ee45cd5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 40/61] fix: do not sign data that could not be read completely

---
 src/voucher/crypto_ossl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 37e31b2..0cc90c1 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1477,7 +1477,7 @@ static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
     return -1;
   }
 
-  if (BIO_write(mem_data, data, data_length) < 0) {
+  if (BIO_write(mem_data, data, data_length) != (int)data_length) {
     log_error("BIO_write fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     BIO_free(mem_data);
-- 
2.43.0


From a5f5788e3639edb43fcdfc32f4573fc81591991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 41/61] fix: do not copy a certificate that cannot be encoded

---
 src/voucher/crypto_ossl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 0cc90c1..6f36156 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -605,12 +605,12 @@ CRYPTO_CERT crypto_cert2context(const uint8_t *cert, const size_t length) {
 CRYPTO_CERT crypto_copycert(CRYPTO_CERT cert) {
   X509 *x509;
   uint8_t *buf = NULL;
-  size_t length;
+  ssize_t length;
 
   if (cert == NULL)
     return NULL;
 
-  if ((length = cert_to_derbuf(cert, &buf)) == 0)
+  if ((length = cert_to_derbuf(cert, &buf)) <= 0)
     return NULL;
 
   x509 = crypto_cert2context(buf, length);
-- 
2.43.0


From 6b6e0d3aa7f8743ab80b88e55860813c2fa4a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 42/61] fix: report when the signers of a message cannot be
 listed

---
 src/voucher/crypto_ossl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 6f36156..c16bc49 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1674,7 +1674,9 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   STACK_OF(X509) *signers = CMS_get0_signers(cms);
 
   if (signers == NULL) {
-    return 0;
+    log_error("CMS_get0_signers fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    return -1;
   }
 
   int length = sk_X509_num(signers);
-- 
2.43.0


From b0758b14be06a329ac8a06d7f7ae57e1b95a3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 43/61] fix: free the pinned certificate when the pledge runs
 out of memory

---
 src/voucher/request.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 5827e69..4cfb9ac 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -563,9 +563,16 @@ int verify_masa_pledge_voucher(
     }
 
     struct BinaryArrayList *intermediate_certs = init_array_list();
+    if (intermediate_certs == NULL) {
+      log_error("init_array_list fail");
+      free_binary_array_content(&cert_copy);
+      goto verify_masa_pledge_voucher_fail;
+    }
+
     if (push_array_list(intermediate_certs, cert_copy.array, cert_copy.length,
                         0) < 0) {
       log_error("push_array_list fail");
+      free_binary_array_content(&cert_copy);
       free_array_list(intermediate_certs);
       goto verify_masa_pledge_voucher_fail;
     }
-- 
2.43.0


From f12e4b5899e84b5f608307c7120cb3f93859aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 44/61] fix: free the name lists when the registrar runs out of
 memory

---
 src/brski/registrar/registrar_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index f639ea3..626ad10 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -180,6 +180,8 @@ int registrar_requestvoucher(const RequestHeader &request_header,
       this->issuer = init_keyvalue_list();
       this->subject = init_keyvalue_list();
       if (this->issuer == nullptr || this->subject == nullptr) {
+        free_keyvalue_list(this->issuer);
+        free_keyvalue_list(this->subject);
         throw std::bad_alloc();
       }
     }
-- 
2.43.0


From 8a5ee988e2e1aa922f45dabe10ab8f81239c47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 45/61] fix: do not share the text of OpenSSL errors between
 threads

---
 src/voucher/crypto_ossl.c | 113 ++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 52 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index c16bc49..d1b044f 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -54,6 +54,15 @@ static struct NID_Name NNAMES[10] = {{NID_countryName, "C"},
                                      {NID_surname, "SN"},
                                      {NID_givenName, "GN"}};
 
+/* Unlike the buffer of ERR_error_string this one isn't shared by the threads. */
+static const char *get_error_string(void) {
+  static _Thread_local char buf[256];
+
+  ERR_error_string_n(ERR_get_error(), buf, sizeof(buf));
+
+  return buf;
+}
+
 struct ptr_list {
   void *ptr;           /**< The pointer (points to heap memory) */
   int flags;           /**< The generic pointer flags */
@@ -132,7 +141,7 @@ static CMS_ContentInfo *derbuf_to_cms(const uint8_t *cms,
   const unsigned char *pp = (unsigned char *)cms;
   if (d2i_CMS_ContentInfo(&content, &pp, cms_length) == NULL) {
     log_error("d2i_CMS_ContentInfo fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
@@ -155,14 +164,14 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
   BIO *out = BIO_new_file(filename, "w");
   if (out == NULL) {
     log_error("BIO_new_ex fail with %s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     CMS_ContentInfo_free(content);
     return -1;
   }
 
   if (!SMIME_write_CMS(out, content, NULL, CMS_TEXT)) {
     log_error("SMIME_write_CMS fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     BIO_free(out);
     CMS_ContentInfo_free(content);
     return -1;
@@ -220,7 +229,7 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
 
   if (!PEM_write_PrivateKey(fp, pkey, NULL, NULL, 0, 0, NULL)) {
     log_error("PEM_write_bio_X509 fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     fclose(fp);
     EVP_PKEY_free(pkey);
     return -1;
@@ -255,7 +264,7 @@ static ssize_t evpkey_to_derbuf(const EVP_PKEY *pkey, uint8_t **key) {
   int length = i2d_PrivateKey(pkey, key);
   if (length < 0) {
     log_error("i2d_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
@@ -296,7 +305,7 @@ struct BinaryArray *file_to_x509buf(const char *filename) {
   X509 *x509 = PEM_read_X509(fp, NULL, NULL, NULL);
   if (x509 == NULL) {
     log_error("PEM_read_X509 fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     fclose(fp);
     return NULL;
   }
@@ -334,7 +343,7 @@ struct BinaryArray *file_to_keybuf(const char *filename) {
   EVP_PKEY *pkey = PEM_read_PrivateKey(fp, NULL, NULL, NULL);
   if (pkey == NULL) {
     log_error("PEM_read_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     fclose(fp);
     return NULL;
   }
@@ -387,13 +396,13 @@ static ssize_t cms_to_derbuf(const CMS_ContentInfo *content, uint8_t **cms) {
 
   if (mem == NULL) {
     log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
   if (!i2d_CMS_bio(mem, (CMS_ContentInfo *)content)) {
     log_error("i2d_CMS_bio fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     BIO_free(mem);
     return -1;
   }
@@ -414,7 +423,7 @@ static X509_CRL *derbuf_to_crl(const uint8_t *crl, const size_t length) {
   const unsigned char *pp = (unsigned char *)crl;
   if (d2i_X509_CRL(&crl_cert, &pp, length) == NULL) {
     log_error("d2i_X509_CRL fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
@@ -433,14 +442,14 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
 
   if ((ctx = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, NULL)) == NULL) {
     log_error("EVP_PKEY_CTX_new_id fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     free_binary_array(key);
     return NULL;
   }
 
   if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
@@ -448,7 +457,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
 
   if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) <= 0) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
@@ -456,7 +465,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
 
   if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
@@ -490,27 +499,27 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
   *key = NULL;
   if ((ctx = EVP_PKEY_CTX_new_id(EVP_PKEY_EC, NULL)) == NULL) {
     log_error("EVP_PKEY_CTX_new_id fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
   if (EVP_PKEY_paramgen_init(ctx) <= 0) {
     log_error("EVP_PKEY_paramgen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) <= 0) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_paramgen(ctx, &params) <= 0) {
     log_error("EVP_PKEY_paramgen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
@@ -519,7 +528,7 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   if ((ctx = EVP_PKEY_CTX_new(params, NULL)) == NULL) {
     log_error("EVP_PKEY_CTX_new fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_free(params);
     return -1;
   }
@@ -528,14 +537,14 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
@@ -558,7 +567,7 @@ CRYPTO_KEY crypto_eckey2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_PrivateKey(EVP_PKEY_EC, NULL, &key, (long)length)) == NULL) {
     log_error("d2i_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
@@ -569,7 +578,7 @@ CRYPTO_KEY crypto_rsakey2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_PrivateKey(EVP_PKEY_RSA, NULL, &key, (long)length)) == NULL) {
     log_error("d2i_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
@@ -581,7 +590,7 @@ CRYPTO_KEY crypto_key2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_AutoPrivateKey(NULL, &key, (long)length)) == NULL) {
     log_error("d2i_AutoPrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
@@ -660,7 +669,7 @@ int get_x509_entry(X509_NAME *name, int nid, char **out) {
   int length = ASN1_STRING_to_UTF8(&str, d);
   if (length < 0) {
     log_error("ASN1_STRING_to_UTF8 code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
@@ -717,18 +726,18 @@ int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta) {
   asn1_serial = X509_get_serialNumber(x509);
   if (asn1_serial == NULL) {
     log_error("X509_get_serialNumber fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
   } else {
     if (!ASN1_INTEGER_get_uint64(&meta->serial_number, asn1_serial)) {
       log_error("ASN1_INTEGER_get_uint64 fail with code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+                get_error_string());
     }
   }
 
   X509_NAME *issuer = X509_get_issuer_name(x509);
   if (issuer == NULL) {
     log_error("X509_get_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
@@ -741,7 +750,7 @@ int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta) {
 
   if (subject == NULL) {
     log_error("X509_get_subject_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
@@ -763,20 +772,20 @@ struct BinaryArray *crypto_getcert_issuer(CRYPTO_CERT cert) {
   X509_NAME *issuer = X509_get_issuer_name(x509);
   if (issuer == NULL) {
     log_error("X509_get_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
     log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
   if (X509_NAME_print_ex(mem_data, issuer, 0, XN_FLAG_ONELINE) < 0) {
     log_error("X509_NAME_print_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     BIO_free(mem_data);
     return NULL;
   }
@@ -812,7 +821,7 @@ char *crypto_getcert_serialhex(CRYPTO_CERT cert) {
   BIGNUM *bn = ASN1_INTEGER_to_BN(X509_get0_serialNumber((X509 *)cert), NULL);
   if (bn == NULL) {
     log_error("ASN1_INTEGER_to_BN fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
@@ -820,7 +829,7 @@ char *crypto_getcert_serialhex(CRYPTO_CERT cert) {
   BN_free(bn);
   if (hex == NULL) {
     log_error("BN_bn2hex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
@@ -893,7 +902,7 @@ static X509_NAME *add_x509name_keyvalues(struct keyvalue_list *pairs) {
     if (!X509_NAME_add_entry_by_txt(name, el->key, MBSTRING_ASC,
                                     (unsigned char *)el->value, -1, -1, 0)) {
       log_error("X509_NAME_add_entry_by_txt code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+                get_error_string());
       X509_NAME_free(name);
       return NULL;
     }
@@ -906,7 +915,7 @@ static int set_certificate_meta(X509 *x509,
                                 const struct crypto_cert_meta *meta) {
   if (X509_set_version(x509, X509_VERSION_3) != 1) {
     log_error("X509_set_version fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
@@ -1017,7 +1026,7 @@ static int sign_sha256_certificate(X509 *x509, const EVP_PKEY *pkey) {
   /* self sign the certificate with the key. */
   if (!X509_sign(x509, (EVP_PKEY *)pkey, EVP_sha256())) {
     log_error("X509_sign fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
@@ -1071,7 +1080,7 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
 
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_free(pkey);
     X509_free(x509);
     return -1;
@@ -1137,7 +1146,7 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
 
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     EVP_PKEY_free(pkey);
     X509_free(x509);
     return -1;
@@ -1204,14 +1213,14 @@ ssize_t crypto_sign_cert(const uint8_t *sign_key, const size_t sign_key_length,
   X509_NAME *ca_subject = X509_get_subject_name(x509_ca);
   if (ca_subject == NULL) {
     log_error("X509_get_subject_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     goto crypto_sign_cert_fail;
   }
 
   /* Set the issuer to the one from the CA/intermediate certificate */
   if (!X509_set_issuer_name(x509, ca_subject)) {
     log_error("X509_set_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     goto crypto_sign_cert_fail;
   }
 
@@ -1249,7 +1258,7 @@ static STACK_OF(X509) *
 
   if (cert_stack == NULL) {
     log_error("sk_X509_new_null fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return NULL;
   }
 
@@ -1263,7 +1272,7 @@ static STACK_OF(X509) *
     }
     if (!sk_X509_push(cert_stack, x509)) {
       log_error("sk_X509_push fail with code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+                get_error_string());
       X509_free(x509);
       sk_X509_pop_free(cert_stack, X509_free);
       return NULL;
@@ -1308,7 +1317,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
 
   if (x509_store == NULL) {
     log_error("X509_STORE_new fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     free_x509_store(x509_store, *x509_store_list);
     return NULL;
   }
@@ -1327,7 +1336,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
 
       if (!X509_STORE_add_cert(x509_store, x509)) {
         log_error("X509_STORE_add_cert fail with code=%s",
-                  ERR_error_string(ERR_get_error(), NULL));
+                  get_error_string());
         X509_free(x509);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
@@ -1344,7 +1353,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
 
       if (!X509_STORE_add_crl(x509_store, x509_crl)) {
         log_error("X509_STORE_add_crl fail with code=%s",
-                  ERR_error_string(ERR_get_error(), NULL));
+                  get_error_string());
         X509_CRL_free(x509_crl);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
@@ -1473,13 +1482,13 @@ static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
     log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
   if (BIO_write(mem_data, data, data_length) != (int)data_length) {
     log_error("BIO_write fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     BIO_free(mem_data);
     return -1;
   }
@@ -1675,7 +1684,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
 
   if (signers == NULL) {
     log_error("CMS_get0_signers fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
@@ -1764,7 +1773,7 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
     log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     goto crypto_verify_cms_fail;
   }
 
@@ -1772,7 +1781,7 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
 
   if (!CMS_verify(content, cert_stack, cert_store, NULL, mem_data, flags)) {
     log_error("CMS_verify fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     goto crypto_verify_cms_fail;
   }
 
@@ -1820,7 +1829,7 @@ int crypto_getrand(struct BinaryArray *buf) {
 
   if (ret != 1) {
     log_error("RAND_bytes fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              get_error_string());
     return -1;
   }
 
-- 
2.43.0


From 24f2b1cdfe84d6c4446328d4638c12dc081122f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 46/61] fix: report a server that cannot start

httplib_start returned success when the certificate was invalid or the
address in use, and its error path stopped the pointer to the server
instead of the server. The contexts of the registrar and MASA were lost.
---
 src/brski/http/httplib_wrapper.cpp       | 10 ++++++++--
 src/brski/masa/masa_server.cpp           | 11 +++++++++--
 src/brski/registrar/registrar_server.cpp | 11 +++++++++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index ee56be0..5c2caa3 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -225,10 +225,16 @@ int httplib_start(struct http_config *config,
     log_info("Starting the HTTPS server at %s:%d", config->bind_address,
              config->port);
 
-    server->listen(config->bind_address, config->port);
+    if (!server->listen(config->bind_address, config->port)) {
+      log_error("httplib::SSLServer::listen() fail");
+      httplib_stop(*srv_ctx);
+      *srv_ctx = nullptr;
+      return -1;
+    }
   } catch (...) {
     log_error("httplib::SSLServer() fail");
-    httplib_stop(srv_ctx);
+    httplib_stop(*srv_ctx);
+    *srv_ctx = nullptr;
     return -1;
   }
 
diff --git a/src/brski/masa/masa_server.cpp b/src/brski/masa/masa_server.cpp
index 63efaa0..3746c1f 100644
--- a/src/brski/masa/masa_server.cpp
+++ b/src/brski/masa/masa_server.cpp
@@ -85,8 +85,15 @@ int masa_start(struct registrar_config *rconf, struct masa_config *mconf,
                               .tls_key_path = mconf->tls_key_path,
                               .client_ca_cert_path = rconf->tls_ca_cert_path};
 
-  return https_start(&hconf, routes, static_cast<void *>(*context),
-                     &(*context)->srv_ctx);
+  if (https_start(&hconf, routes, static_cast<void *>(*context),
+                  &(*context)->srv_ctx) < 0) {
+    log_error("https_start fail");
+    delete *context;
+    *context = nullptr;
+    return -1;
+  }
+
+  return 0;
 }
 
 void masa_stop(struct MasaContext *context) {
diff --git a/src/brski/registrar/registrar_server.cpp b/src/brski/registrar/registrar_server.cpp
index 8ed2469..d09ab08 100644
--- a/src/brski/registrar/registrar_server.cpp
+++ b/src/brski/registrar/registrar_server.cpp
@@ -68,8 +68,15 @@ int registrar_start(struct registrar_config *rconf, struct masa_config *mconf,
                               .tls_key_path = rconf->tls_key_path,
                               .client_ca_cert_path = nullptr};
 
-  return https_start(&hconf, routes, static_cast<void *>(*context),
-                     &(*context)->srv_ctx);
+  if (https_start(&hconf, routes, static_cast<void *>(*context),
+                  &(*context)->srv_ctx) < 0) {
+    log_error("https_start fail");
+    delete *context;
+    *context = nullptr;
+    return -1;
+  }
+
+  return 0;
 }
 
 void registrar_stop(struct RegistrarContext *context) {
-- 
2.43.0


From 0cbcc910b3b8971f1c12db25fbab4f72fad8065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 47/61] fix: send errors with a single content type

The content type of a handler stayed in front of the one for errors.
---
 src/brski/http/httplib_wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 5c2caa3..a06e396 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -167,6 +167,8 @@ void set_error_handler(httplib::SSLServer *server) {
           res.body = HTTP_ERROR_REPLY; // set default error response
         }
         // according to BRSKI spec, all errors must be plain text
+        // (set_header would add a second header)
+        res.headers.erase("Content-Type");
         res.set_header("Content-Type", "text/plain");
       });
 }
-- 
2.43.0


From b6a30b5ea1ac6925e3c09938e6372b9ba6589703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 48/61] fix: trust only the given CA, not the ones of the
 system

httplib added the CAs of the system to the store of the pinned CA.
---
 src/brski/http/httplib.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index a4e7b8f..88065f1 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -1782,6 +1782,7 @@ private:
 
   SSL_CTX *ctx_;
   X509 *server_cert_ = nullptr;
+  bool custom_ca_cert_store_ = false;
   bool verify_host_ = false;
   std::mutex ctx_mutex_;
   std::once_flag initialize_cert_;
@@ -9077,6 +9078,7 @@ inline void SSLClient::set_ca_cert_store(X509_STORE *ca_cert_store) {
 
 inline void SSLClient::load_ca_cert_store(const char *ca_cert,
                                           std::size_t size) {
+  custom_ca_cert_store_ = true;
   set_ca_cert_store(ClientImpl::create_ca_cert_store(ca_cert, size));
 }
 
@@ -9178,7 +9180,8 @@ inline bool SSLClient::load_certs() {
                                          ca_cert_dir_path_.c_str())) {
         ret = false;
       }
-    } else {
+    } else if (!custom_ca_cert_store_) {
+      // Don't trust the system's certificates when the CA is given
       auto loaded = false;
 #ifdef _WIN32
       loaded =
-- 
2.43.0


From 724a51cc18136502f2bfbc95a2d2f476d0feb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 49/61] fix: return the certificate of a verified server

It was only kept when the verification was disabled.
---
 src/brski/http/httplib.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index 88065f1..524a06a 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -9240,8 +9240,10 @@ inline bool SSLClient::initialize_ssl(Socket &socket, Error &error) {
             return false;
           }
           X509_free(server_cert);
-        } else
-          server_cert_ = SSL_get1_peer_certificate(ssl2);
+        }
+
+        X509_free(server_cert_);
+        server_cert_ = SSL_get1_peer_certificate(ssl2);
 
         return true;
       },
-- 
2.43.0


From 5b3f36707673602baef54abd8d89dd347dc97200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 50/61] fix: match the paths of routes literally

A dot stood for any character: /Xwell-known/... reached the handlers of
/.well-known/...
---
 src/brski/http/httplib_wrapper.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index a06e396..37b2066 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -49,6 +49,20 @@ void set_response(std::string &response, ResponseHeader &response_header,
   res.status = status_code;
 }
 
+/* httplib takes the paths for regular expressions */
+static std::string escape_path(const std::string &path) {
+  std::string escaped;
+
+  for (char c : path) {
+    if (std::string("^$\\.*+?()[]{}|").find(c) != std::string::npos) {
+      escaped += '\\';
+    }
+    escaped += c;
+  }
+
+  return escaped;
+}
+
 int httplib_register_routes(httplib::SSLServer *server,
                             std::vector<struct RouteTuple> &routes,
                             void *user_ctx) {
@@ -59,9 +73,10 @@ int httplib_register_routes(httplib::SSLServer *server,
 
   for (auto route : routes) {
     log_debug("Registering route=%s", route.path.c_str());
+    std::string path = escape_path(route.path);
     switch (route.method) {
       case HTTP_METHOD_GET:
-        server->Get(route.path, [=](const httplib::Request &req,
+        server->Get(path, [=](const httplib::Request &req,
                                     httplib::Response &res) {
           CRYPTO_CERT cert = (X509 *)SSL_get0_peer_certificate(req.ssl);
           RequestHeader request_header;
@@ -75,7 +90,7 @@ int httplib_register_routes(httplib::SSLServer *server,
         });
         break;
       case HTTP_METHOD_POST:
-        server->Post(route.path, [=](const httplib::Request &req,
+        server->Post(path, [=](const httplib::Request &req,
                                      httplib::Response &res) {
           CRYPTO_CERT cert = (X509 *)SSL_get0_peer_certificate(req.ssl);
 
@@ -90,7 +105,7 @@ int httplib_register_routes(httplib::SSLServer *server,
         });
         break;
       case HTTP_METHOD_PUT:
-        server->Put(route.path, [=](const httplib::Request &req,
+        server->Put(path, [=](const httplib::Request &req,
                                     httplib::Response &res) {
           CRYPTO_CERT cert = (X509 *)SSL_get0_peer_certificate(req.ssl);
           RequestHeader request_header;
@@ -104,7 +119,7 @@ int httplib_register_routes(httplib::SSLServer *server,
         });
         break;
       case HTTP_METHOD_DELETE:
-        server->Delete(route.path, [=](const httplib::Request &req,
+        server->Delete(path, [=](const httplib::Request &req,
                                        httplib::Response &res) {
           CRYPTO_CERT cert = (X509 *)SSL_get0_peer_certificate(req.ssl);
           RequestHeader request_header;
@@ -118,7 +133,7 @@ int httplib_register_routes(httplib::SSLServer *server,
         });
         break;
       case HTTP_METHOD_OPTIONS:
-        server->Options(route.path, [=](const httplib::Request &req,
+        server->Options(path, [=](const httplib::Request &req,
                                         httplib::Response &res) {
           CRYPTO_CERT cert = (X509 *)SSL_get0_peer_certificate(req.ssl);
           RequestHeader request_header;
@@ -132,7 +147,7 @@ int httplib_register_routes(httplib::SSLServer *server,
         });
         break;
       case HTTP_METHOD_PATCH:
-        server->Patch(route.path, [=](const httplib::Request &req,
+        server->Patch(path, [=](const httplib::Request &req,
                                       httplib::Response &res) {
           CRYPTO_CERT cert = (X509 *)SSL_get0_peer_certificate(req.ssl);
           RequestHeader request_header;
-- 
2.43.0


From eec28d14ff7310fb42493d89a9fc351e92793bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 51/61] fix: reject an enrolment reply that isn't a certificate
 for the key

The pledge returned whatever could be decoded as its certificate.
---
 src/brski/pledge/pledge_request.cpp |  5 +++++
 src/voucher/crypto.h                | 11 ++++++++++
 src/voucher/crypto_ossl.c           | 32 +++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 3da710d..2a28f82 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -368,6 +368,11 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
   }
   out_cert->length = length;
 
+  if (crypto_verify_certkey(out_cert, out_key) < 0) {
+    log_error("The reply isn't a certificate for the generated key");
+    goto post_sign_cert_err;
+  }
+
   free_binary_array_content(&pinned_domain_cert);
   return 0;
 
diff --git a/src/voucher/crypto.h b/src/voucher/crypto.h
index 1787804..4e3df57 100644
--- a/src/voucher/crypto.h
+++ b/src/voucher/crypto.h
@@ -301,6 +301,17 @@ ssize_t crypto_sign_cert(const uint8_t *sign_key, const size_t sign_key_length,
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store);
+
+/**
+ * @brief Checks that a certificate is for a private key
+ *
+ * @param[in] cert The certificate buffer (DER format)
+ * @param[in] key The private key buffer (DER format)
+ * @return int 0 if the certificate is for the key, -1 otherwise
+ */
+int crypto_verify_certkey(const struct BinaryArray *cert,
+                          const struct BinaryArray *key);
+
 /**
  * @brief Signs a buffer using CMS for an Elliptic Curve private key (DER
  * format)
diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index d1b044f..9329496 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1474,6 +1474,38 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   return ret;
 }
 
+int crypto_verify_certkey(const struct BinaryArray *cert,
+                          const struct BinaryArray *key) {
+  if (cert == NULL || key == NULL) {
+    log_error("cert or key param is NULL");
+    return -1;
+  }
+
+  X509 *x509 = crypto_cert2context(cert->array, cert->length);
+  if (x509 == NULL) {
+    log_error("crypto_cert2context fail");
+    return -1;
+  }
+
+  EVP_PKEY *pkey = crypto_key2context(key->array, key->length);
+  if (pkey == NULL) {
+    log_error("crypto_key2context fail");
+    X509_free(x509);
+    return -1;
+  }
+
+  int result = 0;
+  if (X509_check_private_key(x509, pkey) != 1) {
+    log_error("X509_check_private_key fail with code=%s",
+              get_error_string());
+    result = -1;
+  }
+
+  EVP_PKEY_free(pkey);
+  X509_free(x509);
+  return result;
+}
+
 static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
                                 const uint8_t *cert, const size_t cert_length,
                                 const EVP_PKEY *pkey,
-- 
2.43.0


From 2c2fc3939560553a39495b3b4fff52fdc5156d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 52/61] fix: fail when an output file cannot be written

The last part of a file is written when it is closed.
---
 src/voucher/crypto_ossl.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 9329496..59f40bd 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -177,6 +177,14 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
     return -1;
   }
 
+  /* The last part is only written now */
+  if (BIO_flush(out) != 1) {
+    log_error("BIO_flush fail with code=%s", get_error_string());
+    BIO_free(out);
+    CMS_ContentInfo_free(content);
+    return -1;
+  }
+
   BIO_free(out);
   CMS_ContentInfo_free(content);
   return 0;
@@ -206,8 +214,14 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   X509_free(x509);
+
+  /* The last part is only written now */
+  if (fclose(fp) != 0) {
+    log_errno("Couldn't write %s file.", filename);
+    return -1;
+  }
+
   return 0;
 }
 
@@ -235,8 +249,14 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   EVP_PKEY_free(pkey);
+
+  /* The last part is only written now */
+  if (fclose(fp) != 0) {
+    log_errno("Couldn't write %s file.", filename);
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 275daa1303f772cc45a620b4be6385f9d046ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 53/61] fix: free the voucher of the vmasa command

---
 src/brski/brski.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index ce8652c..05b0c57 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -455,6 +455,7 @@ int main(int argc, char *argv[]) {
         return EXIT_FAILURE;
       }
       free_binary_array(registrar_tls_cert);
+      free_binary_array_content(&masa_pledge_voucher_cms);
       free_binary_array_content(&pinned_domain_cert);
       break;
     }
-- 
2.43.0


From 3083e24be3ab60ff2575beaf052b81d9a1926294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 54/61] fix: don't cut the names of output files

A long name made the certificate and its key go to the same file.
---
 src/brski/brski.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 05b0c57..6462e6f 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -238,8 +238,6 @@ int read_stdin(uint8_t buf[]) {
 
 int output_domain_cert(struct BinaryArray *pinned_domain_cert,
                        std::string &out_filename) {
-  char outf[255];
-
   if (out_filename.empty()) {
     char *cert_str = NULL;
     if (serialize_array2base64str(pinned_domain_cert->array,
@@ -251,8 +249,8 @@ int output_domain_cert(struct BinaryArray *pinned_domain_cert,
     print_cert(cert_str, 0);
     sys_free(cert_str);
   } else {
-    snprintf(outf, 255, "%s.crt", out_filename.c_str());
-    if (certbuf_to_file(pinned_domain_cert, outf) < 0) {
+    std::string outf = out_filename + ".crt";
+    if (certbuf_to_file(pinned_domain_cert, outf.c_str()) < 0) {
       log_error("certbuf_to_file fail");
       return -1;
     }
@@ -267,7 +265,7 @@ int main(int argc, char *argv[]) {
   std::string config_filename, in_filename, out_filename;
   std::string address;
   CommandId command_id;
-  char outf[255];
+  std::string outf;
 
   process_options(argc, argv, verbose, config_filename, in_filename,
                   out_filename, &port, address, command_id);
@@ -330,10 +328,10 @@ int main(int argc, char *argv[]) {
         sys_free(base64);
         free_binary_array(tls_cert);
       } else {
-        snprintf(outf, 255, "%s.smime", out_filename.c_str());
+        outf = out_filename + ".smime";
 
-        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert, outf) <
-            0) {
+        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert,
+                                                outf.c_str()) < 0) {
           log_error("voucher_pledge_request_to_smimefile fail");
           return EXIT_FAILURE;
         }
@@ -389,13 +387,13 @@ int main(int argc, char *argv[]) {
         print_cert(pki_str, 0);
         sys_free(pki_str);
       } else {
-        snprintf(outf, 255, "%s.crt", out_filename.c_str());
-        if (certbuf_to_file(&out_cert, outf) < 0) {
+        outf = out_filename + ".crt";
+        if (certbuf_to_file(&out_cert, outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-        snprintf(outf, 255, "%s.key", out_filename.c_str());
-        if (keybuf_to_file(&out_key, outf) < 0) {
+        outf = out_filename + ".key";
+        if (keybuf_to_file(&out_key, outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-- 
2.43.0


From 2e6e019531ea608d713c0151673bcb4f06151352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 55/61] fix: fail when the standard output cannot be written

---
 src/brski/brski.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 6462e6f..95df702 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -522,5 +522,10 @@ int main(int argc, char *argv[]) {
       break;
   }
 
+  if (fflush(stdout) != 0) {
+    log_errno("fflush fail");
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From 5d9c6d9ae56a42cb2c03a30e6576b4692dad45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 56/61] fix: do not crash on a server certificate or key which
 doesn't load

---
 src/brski/http/httplib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index 524a06a..8c90a4d 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -8914,7 +8914,7 @@ inline SSLServer::SSLServer(const char *cert_path, const char *private_key_path,
           ctx_, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, nullptr);
     }
 
-    if (client_ca_cert_file_path == nullptr &&
+    if (ctx_ && client_ca_cert_file_path == nullptr &&
         client_ca_cert_dir_path == nullptr) {
       SSL_CTX_set_verify(ctx_,
                          SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT,
-- 
2.43.0


From 17142584ccf73d4057f027e90db7f23e2cd9b1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 57/61] fix: don't start a server with a key of another type
 than its certificate's

---
 src/brski/http/httplib.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index 8c90a4d..b44939c 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -8903,7 +8903,8 @@ inline SSLServer::SSLServer(const char *cert_path, const char *private_key_path,
 
     if (SSL_CTX_use_certificate_chain_file(ctx_, cert_path) != 1 ||
         SSL_CTX_use_PrivateKey_file(ctx_, private_key_path, SSL_FILETYPE_PEM) !=
-            1) {
+            1 ||
+        SSL_CTX_check_private_key(ctx_) != 1) {
       SSL_CTX_free(ctx_);
       ctx_ = nullptr;
     } else if (client_ca_cert_file_path || client_ca_cert_dir_path) {
-- 
2.43.0


From 867e21e1597d78d47a1f7cabd9b7236acc7ee063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 58/61] fix: do not read past the end of the program's name in
 the help text

---
 src/brski/brski.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 95df702..143d9f3 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -86,6 +86,7 @@ static void show_version(void) {
 static void show_help(const char *name) {
   const std::string string_name(name);
   std::vector<char> basename_buffer(string_name.begin(), string_name.end());
+  basename_buffer.push_back('\0');
 
   show_version();
   std::fprintf(stdout, "Usage:\n");
-- 
2.43.0


From e8a4c3f91766976337cba9c81ad7d3ea76f32658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 59/61] fix: take certificate name values as UTF-8, not as
 Latin-1

---
 src/voucher/crypto_ossl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 59f40bd..204b9c5 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -919,7 +919,7 @@ static X509_NAME *add_x509name_keyvalues(struct keyvalue_list *pairs) {
       return NULL;
     }
 
-    if (!X509_NAME_add_entry_by_txt(name, el->key, MBSTRING_ASC,
+    if (!X509_NAME_add_entry_by_txt(name, el->key, MBSTRING_UTF8,
                                     (unsigned char *)el->value, -1, -1, 0)) {
       log_error("X509_NAME_add_entry_by_txt code=%s",
                 get_error_string());
-- 
2.43.0


From f2bc2bd66f407245b10c6f930a32f529a093ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 60/61] fix: do not serve on, or connect to, a port cut to 16
 bits

---
 src/brski/http/httplib_wrapper.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 37b2066..9a66bf4 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -22,6 +22,16 @@ extern "C" {
 
 #include "http.hpp"
 
+/* The sockets would use only the lower 16 bits of a port */
+static bool is_valid_port(long long port) {
+  if (port < 0 || port > 65535) {
+    log_error("port %lld is out of range", port);
+    return false;
+  }
+
+  return true;
+}
+
 void get_request_header(const httplib::Request &req,
                         RequestHeader &request_header) {
   for (auto iter : req.headers) {
@@ -223,6 +233,10 @@ int httplib_start(struct http_config *config,
     return -1;
   }
 
+  if (!is_valid_port(config->port)) {
+    return -1;
+  }
+
   try {
     httplib::SSLServer *server =
         new httplib::SSLServer(config->tls_cert_path, config->tls_key_path,
@@ -265,6 +279,9 @@ int httplib_post_request(const std::string &client_key_path,
                          const std::string &body,
                          const std::string &content_type,
                          struct HttpResponse &http_res) {
+  if (!is_valid_port(port)) {
+    return -1;
+  }
 
   httplib::SSLClient cli(host, port, client_cert_path, client_key_path);
 
@@ -291,6 +308,9 @@ int httplib_post_request_ca(const std::string &client_key_path,
                             const std::string &body,
                             const std::string &content_type,
                             std::string &response) {
+  if (!is_valid_port(port)) {
+    return -1;
+  }
 
   httplib::SSLClient cli(host, port, client_cert_path, client_key_path);
 
-- 
2.43.0


From c098954d0934686871b975a4d0df0f63d66f1186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 61/61] fix: refuse a -p value which is not a port number

---
 src/brski/brski.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 143d9f3..ce2f2ec 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <array>
+#include <cerrno>
 #include <cstdarg>
 #include <cstdio>
 #include <cstdlib>
@@ -135,6 +136,19 @@ static CommandId get_command_id(const std::string &command_label) {
   throw std::invalid_argument("Unrecognized command: \"" + command_label + '"');
 }
 
+static unsigned int get_port(const char *arg) {
+  char *end = NULL;
+  errno = 0;
+  long port = strtol(arg, &end, 10);
+
+  if (end == arg || *end != '\0' || errno || port < 0 || port > 65535) {
+    log_cmdline_error("Wrong port number %s\n", arg);
+    std::exit(EXIT_FAILURE);
+  }
+
+  return port;
+}
+
 static void process_options(int argc, char *const argv[], int &verbose,
                             std::string &config_filename,
                             std::string &in_filename, std::string &out_filename,
@@ -160,7 +174,7 @@ static void process_options(int argc, char *const argv[], int &verbose,
         out_filename.assign(optarg);
         break;
       case 'p':
-        *port = strtol(optarg, NULL, 10);
+        *port = get_port(optarg);
         break;
       case 'a':
         address.assign(optarg);
-- 
2.43.0

